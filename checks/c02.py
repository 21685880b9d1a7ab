#!/usr/bin/env python3
"""C02  VEX and EVEX instructions encode what was written.

data/vexforms.txt lists every operand form (vector length, mask, memory size,
immediate) that the independent reference, GNU as, knows for every VEX/EVEX
mnemonic of the assembler (made by tools/mkforms.py).  For every form, in 64-
and 32-bit code, with and without the assembler's EVEX support:
 * every combination of registers from the set at the prefix-bit boundaries
   (R, X, B, R', V', vvvv) in all operand positions together, and every
   register of the file in each position;
 * every memory operand over all addressing modes, and displacements around
   the limits of disp8*N compression for every N;
 * every decoration: masks k1..k7, zeroing, broadcast, rounding, SAE, alone and
   combined with memory displacements;
 * every boundary immediate.
Oracle: an accepted statement that GNU as knows must assemble to the bytes as
produces, or to bytes objdump reads back as exactly that instruction."""
import sys, os, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from isa import *

FORMS = [l.strip() for l in open(os.path.join(VERIF, "data", "vexforms.txt")) if l.strip()]
HD = {("e", 64): ".x64p\noption evex:1\n%s_t segment use64\n", ("e", 32): ".686p\n.xmm\noption evex:1\n%s_t segment use32\n",
      ("v", 64): ".x64p\n%s_t segment use64\n", ("v", 32): ".686p\n.xmm\n%s_t segment use32\n"}
G32 = "eax ecx edx ebx esp ebp esi edi r8d r9d r10d r11d r12d r13d r14d r15d".split()
G64 = "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split()
FILE = {"xmm": ["xmm%d" % i for i in range(32)], "ymm": ["ymm%d" % i for i in range(32)], "zmm": ["zmm%d" % i for i in range(32)],
        "k": ["k%d" % i for i in range(8)], "g32": G32, "g64": G64}
EDGE = {True: {"xmm": [0, 7, 8, 15, 16, 24], "k": [1, 7], "g": [0, 5, 8, 13]}, False: {"xmm": [0, 5, 7], "k": [1, 7], "g": [0, 5]}}
IV = [0, 1, 2, 7, 8, 15, 16, 31, 127, 128, 170, 255]


def kind(o):
    o = o.split("{")[0]
    if "[" in o:
        return "m"
    if re.fullmatch(r"-?\d+", o):
        return "i"
    m = re.match(r"(xmm|ymm|zmm|k)\d+$", o)
    return m[1] if m else "g64" if o in G64 else "g32"


def split(f):
    mn, _, r = f.partition(" ")
    return mn, [x.strip() for x in r.split(",")] if r else []


def shape(f):
    mn, o = split(f)
    return mn + ":" + ",".join(kind(x) if kind(x) != "m" else "m" + x.split(" ptr")[0][0] + ("v" if "mm" in x.split("[")[1] else "") for x in o)


def bases(mode, full):
    """addressing modes without displacement"""
    if mode == 64:
        r = ["rax", "rsp", "rbp", "rdi", "r8", "r12", "r13", "r15", "rax+rcx*2", "rbp+rsi", "rsp+rbp*8", "r8+r9*4", "r13+rax", "rbx+r12*8", "r15+r15*2", "ecx", "r9d+r10d"]
        return r if full else r[:14:2] + ["rax+rcx*2", "r8+r9*4", "rbx+r12*8"]
    r = ["eax", "esp", "ebp", "edi", "eax+ecx*2", "ebp+esi", "esp+ebp*8", "bx", "bp+si"]
    return r if full else r[:6]


def disps():
    out = {0, 1, -1, 127, -128, 128, -129}
    for n in (2, 4, 8, 16, 32, 64):
        for k in (1, 126, 127, 128, -127, -128, -129):
            out.add(k * n)
        out |= {n - 1, n + 1, 127 * n + n // 2, -128 * n - n // 2}
    return sorted(out)


DISP = disps()


def mems(mode, o, full):
    """all addressing variants of one memory operand"""
    pre, inner = o.split("[")
    inner, post = inner.split("]")
    v = re.search(r"[xyz]mm", inner)
    if v:
        v = v[0]
        idx = [0, 4, 7, 8, 15, 16, 31] if mode == 64 else [0, 4, 7]
        for b in (["rax", "rsp", "rbp", "r8", "r13", "r12"] if mode == 64 else ["eax", "esp", "ebp"]):
            for i in idx:
                for s in (1, 8):
                    yield "%s[%s+%s%d*%d]%s" % (pre, b, v, i, s, post)
        for d in DISP:
            yield "%s[%s+%s%d*4%+d]%s" % (pre, "rbx" if mode == 64 else "ebx", v, idx[-2], d, post)
        for s in (1, 2, 4, 8):
            yield "%s[%s%d*%d+64]%s" % (pre, v, idx[-1], s, post)
        return
    for b in bases(mode, full):
        yield "%s[%s]%s" % (pre, b, post)
        yield "%s[%s+64]%s" % (pre, b, post)
        yield "%s[%s+1000]%s" % (pre, b, post)
    for b in (["rbx", "r13+r9*4", "rsp"] if mode == 64 else ["ebx", "esp"]):
        for d in DISP:
            yield "%s[%s%+d]%s" % (pre, b, d, post)
    for s in ("fs:", "gs:", "es:", "cs:"):
        yield "%s%s[%s]%s" % (pre, s, "rbx" if mode == 64 else "ebx", post)


def variants(mode, f, thorough):
    mn, ops = split(f)
    ks = [kind(o) for o in ops]
    lim = 32 if mode == 64 else 8
    if mode == 32 and "g64" in ks:
        return
    if mode == 32:
        ops = [re.sub(r"\brbx\b", "ebx", o) for o in ops]
    J = lambda o, tail="": (mn + " " + ", ".join(o) + tail).strip()
    yield J(ops)
    reg = [i for i, k in enumerate(ks) if k in FILE]
    dec = {i: ops[i][len(ops[i].split("{")[0]):] for i in reg}
    # registers: all boundary combinations together
    sets = []
    for i in reg:
        F = FILE[ks[i]]
        e = EDGE[mode == 64]["k" if ks[i] == "k" else "g" if ks[i][0] == "g" else "xmm"]
        if thorough and mode == 64 and ks[i][1:] == "mm":
            e = [0, 1, 7, 8, 9, 15, 16, 23, 24, 31]
        sets.append([F[x] for x in e])
    for c in itertools.product(*sets):
        t = list(ops)
        for i, r in zip(reg, c):
            t[i] = r + dec[i]
        yield J(t)
    for i in reg:
        F = FILE[ks[i]]
        for r in F[:8 if mode == 32 else len(F)]:
            t = list(ops)
            t[i] = r + dec[i]
            yield J(t)
    mem = [i for i, k in enumerate(ks) if k == "m"]
    bc = []
    for i in mem:
        for m in mems(mode, ops[i], True):
            t = list(ops)
            t[i] = m
            yield J(t)
            if reg and mode == 64:
                t[reg[0]] = FILE[ks[reg[0]]][-1] + dec[reg[0]]
                yield J(t)
        if len(ops) > 1 and "{" not in ops[i] and not re.search(r"\[.*mm", ops[i]):
            for sz, n in ((s, n) for s in ("word", "dword", "qword") for n in (2, 4, 8, 16, 32)):
                bc.append((i, "%s ptr %s{1to%d}" % (sz, ops[i][ops[i].index("["):], n)))
    # decorations
    dst = 0
    if ops and "{" not in ops[0] and ks[0] in ("xmm", "ymm", "zmm", "k", "m"):
        for k in range(1, 8):
            for z in ("", "{z}"):
                t = list(ops)
                t[0] += "{k%d}%s" % (k, z)
                yield J(t)
                if mode == 64 and k in (1, 7):
                    for i in reg:
                        t2 = list(t)
                        F = FILE[ks[i]]
                        for x in (8, 16, 31):
                            if x < len(F):
                                t2[i] = F[x] + (t[i][len(ops[i]):] if i == 0 else dec[i])
                                yield J(t2)
    for i, b in bc:
        t = list(ops)
        t[i] = b
        yield J(t)
        for d in ("{k3}", "{k5}{z}"):
            t2 = list(t)
            t2[0] += d
            yield J(t2)
        sz = {"w": 2, "d": 4, "q": 8}[b[0]]
        for d in (0, sz, 127 * sz, 128 * sz, -128 * sz, -129 * sz, 127, 128, 64, 1):
            t2 = list(t)
            t2[i] = b.replace("+64]", "%+d]" % d)
            yield J(t2)
        if mode == 64:
            for bb in ("r8", "r13+r9*4", "rsp", "rbp"):
                t2 = list(t)
                t2[i] = b.replace("rbx+64", bb)
                if ks[0] in FILE:
                    t2[0] = FILE[ks[0]][-1]
                yield J(t2)
    if ops and not mem:
        for r in ("{rn-sae}", "{rd-sae}", "{ru-sae}", "{rz-sae}", "{sae}"):
            for dd in ("", "{k2}", "{k4}{z}"):
                t = list(ops)
                t[0] = t[0] + dd
                # the assembler's own syntax: rounding after the last operand
                yield J(t, ", " + r)
                if mode == 64 and reg:
                    for i in reg:
                        if FILE[ks[i]][-1][1:3] == "mm":
                            t2 = list(t)
                            t2[i] = FILE[ks[i]][-1] + (dd if i == 0 else "")
                            yield J(t2, ", " + r)
    for i, k in enumerate(ks):
        if k == "i":
            for v in IV:
                t = list(ops)
                t[i] = str(v)
                yield J(t)
                if mode == 64 and reg:
                    t[reg[-1]] = FILE[ks[reg[-1]]][-1]
                    yield J(t)


def togas(s):
    """rounding in gas syntax stands before an immediate"""
    m = re.match(r"(.*), (-?\d+), (\{[a-z-]+\})$", s)
    return "%s, %s, %s" % (m[1], m[3], m[2]) if m else s


def evaluate(ctx, case):
    hd, mode, forms, thorough = case
    out = []
    st = {}
    for f in forms:
        for v in variants(mode, f, thorough):
            st.setdefault(v, f)
    lst = list(st)
    acc = []
    for ch in chunks(lst, 4000):
        try:
            ok, bad = uasm(ctx, mode, ch, head=HD[hd, mode])
        except Crash as e:
            out.append(V("%s%d:crash:%s" % (hd, mode, shape(st[ch[0]])), e.what, source=e.src[:3000]))
            continue
        ctx.n["accepted"] += len(ok)
        ctx.n["rejected"] += len(bad)
        acc += [(ch[i], ok[i]) for i in ok]
    wrong, known = judge(mode, [togas(a) for a, _ in acc], [b for _, b in acc], strict=False)
    ctx.n["judged"] += len(known)
    bad = {}
    for i, (s, b) in enumerate(acc):
        ctx.outcome(hd, mode, s, b)
        if i in wrong:
            k = shape(st[s])
            bad.setdefault(k + feature(s), (s, wrong[i]))
    for k, (s, w) in bad.items():
        out.append(V("%s%d:%s" % (hd, mode, k), "%d-bit: %s: %s" % (mode, s, w), statement=s))
    if acc:
        ctx.sample({"mode": mode, "statement": acc[-1][0], "bytes": acc[-1][1].hex()})
    return out or None


def feature(s):
    """what is special about the failing statement (part of the violation's identity)"""
    f = ""
    if re.search(r"\{1to", s):
        f += ":bcast"
    if "{z}" in s:
        f += ":z"
    elif re.search(r"\{k\d", s):
        f += ":mask"
    if "sae}" in s:
        f += ":sae"
    if re.search(r"mm(1[6-9]|2\d|3[01])", s):
        f += ":hi"
    return f


def main():
    ck = Check("C02")
    ck.assume = ["GNU as 2.42 and objdump 2.42 are the independent decoder", "statements GNU as does not know are not judged (see DESIGN.md: operand typing of VEX instructions)",
                 "a statement may be rejected; C29 decides which must be accepted"]
    by = {}
    for f in FORMS:
        by.setdefault(f.split(" ")[0], []).append(f)
    for hd, mode in (("e", 64), ("e", 32), ("v", 64), ("v", 32)):
        ck.explore("%s%d" % (hd, mode), lambda: ((hd, mode, fs, ck.thorough) for fs in by.values()), evaluate, limit=100000)
    ck.finish("every operand form of every VEX/EVEX mnemonic known to both assemblers x register boundary products x all addressing modes and "
              "disp8*N limits x decorations x immediates, in 64/32-bit code with and without EVEX enabled")


main()

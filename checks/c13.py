"""C13 64-bit INVOKE and PROC: argument lists x parameter types x OPTION WIN64/STACKBASE/FRAME modes and System V, each call run on an
interpreter and inspected at the callee's first instruction, in its body and behind the call."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
import emu, inv64
from inv64 import *

ck = Check("C13", variants=("plain",))
T = ck.thorough
TY = list(PTYPE)
SAVEOK = {n: True for n in CONF}


def judge(ctx, case):
    name, items = case
    cf = CONF[name]
    r = ctx.srv().asm(module(cf, items), ("-q", cf.fmt, "-nomlib"))
    if r.exit or r.sig or not r.obj():
        if len(items) == 1:
            t = r.text()
            ctx.n["rejected"] += 1
            m = re.search(r"(A\d{4}): ([^\n]*)", t)
            if r.sig or not m or m.group(1) == "A2169":
                return V(key(cf, items[0]), "assembler ended with signal %s: %s" % (r.sig, t[-200:]), source=module(cf, items))
            ctx.n["rejected " + m.group(1)] += 1
            if m.group(1) not in OKREJ:
                return V(known(cf, items[0], "") or key(cf, items[0]), "refused: " + t[-200:], source=module(cf, items))
            return None
        out = []
        for it in items:
            w = judge(ctx, (name, [it]))
            if w:
                out += w if isinstance(w, list) else [w]
        return out
    try:
        secs, base = code_of(cf, r)
    except Exception as x:
        return V(key(cf, items[0]), "object file: %s" % x, source=module(cf, items))
    run = Run(cf, secs[".text"])
    out = []
    for n, it in enumerate(items):
        w = run.call(ctx, n, it)
        ctx.n["calls"] += 1
        if w:
            out.append(V(known(cf, it, w) or key(cf, it), w, source=module(cf, [it])))
        else:
            ctx.outcome(name, len(it[1]), it[2], it[4])
    return out


# refusals that are documented: a register is overwritten by an earlier argument; AH-DH with an instruction that needs a REX prefix
OKREJ = ("A2166", "A2202", "A2256")


def known(cf, it, w):
    """the class of a listed finding a case belongs to, by what the source says (not by what went wrong)"""
    sig, ar, uses, loc, how, cu = it
    names = [a[0] for a in ar]
    pl = places(cf, sig, ar)
    if cf.abi == "sysv":
        for k, (kind, at) in enumerate(pl):
            if kind == "s" and names[k] in NARROW:
                return "sysv:narrow-register-on-stack"
            if kind == "s" and names[k].startswith("offset"):
                return "sysv:offset-on-stack"
    # xmm0-3 read by an argument behind the one that loads it
    for k, nm in enumerate(names):
        m = re.fullmatch(r"xmm(\d+)", nm)
        if m and w.startswith("at entry parameter %d " % k):
            for j in range(k):
                if pl[j] == ("x", int(m.group(1))) and names[j] != nm:
                    return cf.abi[0] + ":xmm-overwritten"
    return None


RSIZE = {r: n for n in (1, 2, 4, 8) for r, v in regs_of(n)}
MSIZE = {p + n: len(b) for n, t, b in MEM for p in ("", "l", "p")}
NARROW = {r for n in (1, 2, 4) for r, v in regs_of(n)}


def ok(cf, it):
    sig, ar, uses, loc, how, cu = it
    s = " ".join(a[0] for a in ar)
    if cf.abi == "sysv":
        # UASM's System V INVOKE takes arguments of exactly the parameter's size, and no structures
        for pt, a in zip(sig, ar):
            if pt[0] == "s" and pt[1:].isdigit() or isinstance(a[1], list) and len(a[1]) > 1:
                return None
            v = a[0]
            if pt == "vararg":
                break
            if pt == "ptr" and v == "0":
                return None
            if v in NARROW and RSIZE[v] != PTYPE[pt] or v in MSIZE and MSIZE[v] != PTYPE[pt]:
                return None
    if cf.abi == "sysv" and how == 4 and re.search(r"\bp(v|z)", s):
        return None
    if "[rbx]" in s and re.search(r"\b[re]?bx\b|\bb[lh]\b", re.sub(r"ptr \[rbx\]", "", s)):
        return None
    if len([1 for a in ar if isinstance(a[1], tuple) and a[1][0] == "mem"]) > 1:
        return None
    if how == 3 and "r12" in s:
        return None
    return it


VARG = [("1", [le(1, 4)]), ("-2", [le(-2, 4)]), ("012345678h", [le(0x12345678, 4)]), ("0123456789abcdef0h", [le(0x123456789abcdef0, 8)]), ("vq", [MV["vq"]]), ("vd", [MV["vd"]]), ("addr vb", ("adr", "vb", 0)),
        ("offset vw", ("adr", "vw", 0))] + [a for a in ARGS["qword"] + ARGS["dword"] if RSIZE.get(a[0], 0) in (4, 8) and a[0] not in ("rax", "eax") and len(a[1]) == 1 and len(a[1][0]) == RSIZE[a[0]]]


def gen():
    rot = 0
    for name, cf in CONF.items():
        full = T or name in ("w7f", "w11f", "w15f", "w0", "w3", "sysv")
        L = []
        # each form of argument in each of the first six places
        for pos in range(0, 7 if full else 5):
            for pt in TY:
                for j, a in enumerate(ARGS[pt]):
                    if not full and (j + pos) % 4:
                        continue
                    rot += 1
                    sig = tuple(["qword", "dword", "ptr", "byte", "qword", "word"][:pos]) + (pt,)
                    ar = tuple([("1", [le(1, 8)]), ("2", [le(2, 4)]), ("offset vb", ("adr", "vb", 0)), ("3", [b"\x03"]), ("4", [le(4, 8)]), ("5", [le(5, 2)])][:pos]) + (a,)
                    L.append((sig, ar, uses_for(cf, rot), LOC[rot % len(LOC)], rot % 4, uses_for(cf, rot // 3)))
        for p1 in TY:
            for p2 in TY:
                for k in range(6 if full else 2):
                    rot += 1
                    L.append(((p1, p2), (ARGS[p1][(5 * k + rot) % len(ARGS[p1])], ARGS[p2][(3 * k + rot) % len(ARGS[p2])]), uses_for(cf, rot), LOC[rot % len(LOC)], rot % 4, uses_for(cf, rot // 5)))
        for pt in TY:
            for a in FARGS[pt]:
                rot += 1
                L.append(((pt,), (a,), uses_for(cf, rot), LOC[rot % len(LOC)], 4, uses_for(cf, rot // 7)))
                L.append((("byte", "real8", "dword", "qword", pt), (ARGS["byte"][rot % 3], FARGS["real8"][0], FARGS["dword"][rot % 3], ARGS["qword"][rot % 5], a), uses_for(cf, rot + 1), LOC[rot % len(LOC)], 4, uses_for(cf, rot // 7)))
        small = ["byte", "sdword", "qword", "real4", "real8", "ptr"]
        for sig in itertools.product(small, repeat=4):
            rot += 1
            if not full and rot % 5:
                continue
            L.append((sig + (small[rot % 6],) * (rot % 5), tuple((FARGS if rot % 3 == 0 and (rot + j) % 2 else ARGS)[p][(rot + 5 * j) % len((FARGS if rot % 3 == 0 and (rot + j) % 2 else ARGS)[p])] for j, p in enumerate(sig + (small[rot % 6],) * (rot % 5))),
                      uses_for(cf, rot), LOC[rot % len(LOC)], 4 if rot % 3 == 0 else rot % 4, uses_for(cf, rot // 11)))
        for u in range(len(USES)):
            for lc in LOC:
                for sig in ((), ("dword",), ("byte", "qword", "real8"), ("dword",) * 5, ("qword",) * 7):
                    rot += 1
                    L.append((sig, tuple(ARGS[p][(rot + 3 * j) % len(ARGS[p])] for j, p in enumerate(sig)), uses_for(cf, u), lc, rot % 4, uses_for(cf, rot)))
        for f in range(4):
            for n in range(0, 5 if full else 3):
                for k in range(6 if full else 2):
                    rot += 1
                    va = tuple(VARG[(rot * (j + 1) + k) % len(VARG)] for j in range(n))
                    L.append((tuple(("qword", "byte", "ptr")[:f]) + ("vararg",), (("3", [le(3, 8)]), ("vb", [MV["vb"]]), ("addr vd", ("adr", "vd", 0)))[:f] + va, uses_for(cf, rot), LOC[rot % len(LOC)], rot % 4, uses_for(cf, rot // 3)))
        L = [x for x in (ok(cf, it) for it in L) if x]
        for c in range(0, len(L), 8):
            yield (name, L[c:c + 8])


AREG = ("rcx", "rdx", "r8", "r9", "rax", "rbx", "rdi", "rsi", "r10", "r11") if not T else ("rcx", "rdx", "r8", "r9", "rax", "rbx", "rdi", "rsi", "r10", "r11", "r12", "r15")
CST = {"qword": ("5", [le(5, 8)]), "dword": ("6", [le(6, 4)]), "word": ("7", [le(7, 2)]), "byte": ("8", [b"\x08"]), "real8": ("1.5", [struct.pack("<d", 1.5)]), "ptr": ("offset vb", ("adr", "vb", 0))}


def gen_addr():
    """arguments that are addressed by registers, the argument registers among them"""
    rot = 0
    for name, cf in CONF.items():
        if not T and name not in ("w7f", "w11f", "w3", "sysv"):
            continue
        L = []
        for pos in range(0, 6):
            for b in AREG + ("",):
                for x in AREG + ("",):
                    if not b and not x or b == x or x == "rsp":
                        continue
                    rot += 1
                    pt = ("qword", "dword", "ptr", "byte", "real8", "qword", "ptr", "word")[rot % 8]
                    sc = (1, 2, 4, 8)[rot // 3 % 4] if x else 1
                    d = (0, 8, -3, 1000)[rot // 5 % 4]
                    if not b and (TEXT + 8) % sc:
                        continue
                    if not b:
                        nm = {"qword": "vq", "dword": "vd", "ptr": "vq", "byte": "vb", "real8": "vr8", "word": "vw"}[pt]
                        if (TEXT + MOFS[nm] - d) % sc:
                            sc = 1
                    ad = "[" + "+".join([b] * bool(b) + ["%s*%d" % (x, sc) if sc > 1 or not b else x] * bool(x)) + ("%+d" % d if d else "") + "]"
                    if pt == "ptr" and rot % 3:
                        a = ("addr " + ad, [le((INIT[b] if b else 0) + (INIT[x] * sc if x else 0) + d, 8)])
                    else:
                        nm = {"qword": "vq", "dword": "vd", "ptr": "vq", "byte": "vb", "real8": "vr8", "word": "vw"}[pt]
                        a = ("%s ptr %s" % ({"ptr": "qword", "real8": "real8"}.get(pt, pt), ad), ("memr", nm, b, x, sc, d))
                    pre = [("qword", "dword", "byte", "ptr", "word", "real8")[(rot + j) % 6] for j in range(pos)]
                    suf = [("qword", "dword", "byte", "ptr", "word", "real8")[(rot // 7 + j) % 6] for j in range(rot % 3)]
                    if cf.abi == "sysv" and "addr" in a[0]:
                        suf = [t for t in suf if t != "ptr"]
                    L.append((tuple(pre) + (pt,) + tuple(suf), tuple(CST[t] for t in pre) + (a,) + tuple(CST[t] for t in suf), uses_for(cf, rot), LOC[rot % len(LOC)], rot % 3, uses_for(cf, rot // 3)))
        L = [x for x in (ok(cf, it) for it in L) if x]
        for it in L:
            yield (name, [it])


ck.explore("calls", gen, judge)
ck.explore("addressed", gen_addr, judge)
ck.assume += ["an interpreter (harness/xemu.c) stands for the processor",
              "System V arguments have exactly the size of their parameter (UASM refuses the others); no structures there",
              "how a narrower register or constant is extended where its signedness differs from the parameter's isn't judged"]
ck.finish("every call within the bounds: 16 configurations (OPTION WIN64:0,1,3,5,7 with STACKBASE:RBP and 11,15 with RSP, each with and without FRAME; System V with and without STACKBASE:RBP) x {each argument form of each of 15 parameter types in each of "
          "the first 7 places; all pairs of types; quadruples of 6 types with up to 4 more on the stack; VARARG lists up to 4; arguments that are the caller's own parameters and locals} x {call behind the PROC, with a PROTO, through a typed variable, through a "
          "typed [r12]}, USES sets (general and XMM) x LOCAL sets (up to 5000 bytes); each run to the callee's first instruction (places of arguments, alignment, kept registers), its body (values read, places of parameters and locals), and back (registers, stack)",
          states=ck.n["calls"], transitions=ck.n["steps"])

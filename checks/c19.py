"""C19 PUSHCONTEXT/POPCONTEXT, ASSUME, .RADIX, alignment and cpu state: all sequences of state changing directives up to a depth,
the whole state observed after each of them, against a reference stack machine; with the sequence wholly in one pass, repeated in
further passes, and beginning before the first code or data (where the saved state of the first pass starts)."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

ck = Check("C19")
T = ck.thorough
HEAD = """.386
Aq_ segment use32
va_ db 9
Aq_ ends
Bq_ segment use32
vb_ db 8
Bq_ ends
Sq_ struct
sa_ dw ?
sb_ dd ?
Sq_ ends
"""
SEG = "dq_ segment use32\n"
PRE = HEAD + SEG + " assume fs:Aq_,gs:Bq_\n"
POST = "dq_ ends\nend\n"
CPU = {"386": 0xd0f, "486": 0xd1f, "586": 0xd3f, "386p": 0xd8f, "586p": 0xdbf}
INIT = dict(radix=10, ebx=0, esi=0, ds=None, fa=1, cpu="386")
CTX = {"assumes": ("ebx", "esi", "ds"), "radix": ("radix",), "cpu": ("cpu",), "alignment": ("fa",), "listing": ()}
ALL = ("assumes", "radix", "listing", "cpu")


class Bad(Exception):
    """args[0]: the contexts left on the stack (needed only to clean up behind the failing statement)"""


def step(st, op):
    """st: (dict, tuple stack) -> new state"""
    v, stack = st
    k = op[0]
    if k == "set":
        v = dict(v)
        v[op[1]] = op[2]
        return v, stack
    if k == "push":
        for t in op[1]:
            for x in (ALL if t == "all" else (t,)):
                stack = stack + ((x, tuple((f, v[f]) for f in CTX[x])),)
        return v, stack
    v = dict(v)
    for t in op[1]:
        bad = False
        for x in (ALL if t == "all" else (t,)):
            for i in range(len(stack) - 1, -1, -1):
                if stack[i][0] == x:
                    v.update(stack[i][1])
                    stack = stack[:i] + stack[i + 1:]
                    break
            else:
                bad = True
        if bad:
            raise Bad(stack)
    return v, stack


REG = {0: "nothing", 6: "ptr Sq_", 1: "ptr byte", 2: "ptr word"}


def txt(op):
    if op[0] != "set":
        return " %scontext %s" % (op[0], ",".join(op[1]))
    f, x = op[1:]
    if f == "radix":
        return " .radix %dt" % x
    if f in ("ebx", "esi"):
        return " assume %s:%s" % (f, REG[x])
    if f == "ds":
        return " assume ds:%s" % (x or "nothing")
    if f == "fa":
        return " option fieldalign:%dt" % x
    return " .%s" % x


REGT = {0: 0, 6: 6, 1: 1, 2: 2}
SZ = {1: 6, 2: 6, 4: 8}


def obs(v, u, mem=True):
    """lines showing the whole state, and the bytes they give"""
    l = [" db 10,type [ebx],type [esi]", " dw @Cpu"]
    b = bytes([v["radix"], REGT[v["ebx"]], REGT[v["esi"]]]) + CPU[v["cpu"]].to_bytes(2, "little")
    if mem:
        l += [" mov al,va_", " mov al,vb_"]
        b += (b"" if v["ds"] == "Aq_" else b"\x64") + b"\xa0\0\0\0\0" + (b"" if v["ds"] == "Bq_" else b"\x65") + b"\xa0\0\0\0\0"
    if v["ebx"] in (1, 2):
        l.append(" inc [ebx]")
        b += (b"\xfe" if v["ebx"] == 1 else b"\x66\xff") + b"\x03"
    elif v["ebx"] == 6:
        l.append(" mov eax,[ebx].sb_")
        b += b"\x8b\x43\x02"
    l += ["%s struct" % u, "%sa db ?" % u, "%sb dw ?" % u, "%sc dd ?" % u, "%s ends" % u, " db sizeof %s,%sc" % (u, u)]
    # byte, word at 1 or 2, dword
    off = 1
    for s in (2, 4):
        a = min(v["fa"], s)
        off = -(-off // a) * a
        c = off
        off += s
    l[-1] = " db %s.%sc" % (u, u)
    b += bytes([c])
    return l, b


# reset to the initial state: everything explicit
RESET = ["%s" % txt(("set", f, x)) for f, x in INIT.items()]


def build(seq, i, first=0):
    """-> (lines, bytes or None)"""
    st = (INIT, ())
    l, b = [], b""
    for k, op in enumerate(seq):
        l.append(txt(op))
        try:
            st = step(st, op)
        except Bad as e:
            return l + [" popcontext %s" % t for t, _ in reversed(e.args[0])], None
        if k + 1 >= first:
            o, x = obs(st[0], "u%d_%d" % (i, k))
            l += o
            b += x
    for t, _ in reversed(st[1]):
        l.append(" popcontext %s" % t)
    return l, b


def valid(n, ops, tail=()):
    """all sequences of length n whose proper prefixes are well-formed"""
    def go(pre, st):
        for op in ops:
            s = pre + (op,)
            try:
                s2 = step(st, op)
            except Bad:
                yield s
                continue
            if len(s) == n:
                # only the last state is new, and it matters only if the stack was used or an op changed something
                yield s
            else:
                yield from go(s, s2)
    yield from go((), (INIT, ()))


def P(*t):
    return ("push", t)


def Q(*t):
    return ("pop", t)


def S(f, x):
    return ("set", f, x)


OPS = [S("radix", 16), S("radix", 8), S("ebx", 6), S("ebx", 1), S("esi", 2), S("ds", "Aq_"), S("ds", "Bq_"), S("fa", 4), S("cpu", "486"),
       S("cpu", "386p"), P("assumes"), P("radix"), P("cpu"), P("alignment"), P("all"), P("radix", "assumes"),
       Q("assumes"), Q("radix"), Q("cpu"), Q("alignment"), Q("all"), Q("cpu", "radix")]
DEEP = [S("radix", 2), S("radix", 16), S("ebx", 1), P("radix"), P("all"), P("assumes"), Q("radix"), Q("all"), Q("assumes")]
MORE = [S("ebx", 0), S("ds", None), S("radix", 2), S("fa", 2), S("cpu", "586p"), P("listing"), Q("listing"), P("all", "alignment"),
        Q("alignment", "all"), Q("assumes", "radix")]


def g_seq():
    def go():
        for n in (1, 2, 3):
            yield from valid(n, OPS + MORE)
        yield from valid(4, OPS + MORE if T else OPS)
        for n in ((5, 6, 7) if T else (5,)):
            yield from valid(n, DEEP)
    yield from ((0, c) for c in chunks(go(), 80))
    for n in (2, 3):
        yield from ((1, c) for c in chunks(valid(n, OPS), 80))


WRAP = [(PRE, POST), (PRE + " jmp l9_\n jmp l8_\n", " db 126 dup (0)\nl8_:\n db 2 dup (0)\nl9_:\n" + POST)]
AB = 32        # Aq_ and Bq_ are paragraph aligned in the image


def jseq(ctx, case):
    w, c = case
    sts, rf = [], []
    for i, s in enumerate(c):
        l, b = build(s, i)
        sts.append("\n".join(RESET + l + RESET) if b is not None else "\n".join(l + RESET))
        rf.append(b)

    def image(r):
        o = (r.obj() or b"")[AB:]
        if w == 0:
            return o
        # the two jumps in front, in either form
        for n in (4, 7, 10):
            k = 0
            ok = o
            p = 0
            for _ in range(2):
                if o[p:p + 1] == b"\xeb":
                    p += 2
                elif o[p:p + 1] == b"\xe9":
                    p += 5
        return o[p:-128]
    return batch_judge(ctx, "seq%d" % w, WRAP[w][0], sts, rf, WRAP[w][1], image=image)


# ---- sequences that begin before the first code or data -----------------------------
def g_start():
    ops = [S("radix", 16), S("ebx", 6), S("ds", "Aq_"), S("fa", 4), S("cpu", "486"), P("assumes"), P("all"), P("alignment"), Q("assumes"), Q("all"),
           Q("radix"), Q("alignment")]
    for n in (1, 2, 3, 4):
        for s in valid(n, ops):
            for split in range(1, n + 1):
                yield s, split


START_HEAD = HEAD.replace("va_ db 9", "va_ label byte").replace("vb_ db 8", "vb_ label byte") + " assume fs:Aq_,gs:Bq_\n"


def jstart(ctx, case):
    s, split = case
    st = (INIT, ())
    l, b = [], b""
    err = False
    for k, op in enumerate(s):
        if k == split:
            l += ["dq_ segment use32", " jmp l9_"]
        l.append(txt(op))
        try:
            st = step(st, op)
        except Bad:
            err = True
            break
        if k + 1 >= split:
            if k + 1 == split:
                l += ["dq_ segment use32", " jmp l9_"]
            o, x = obs(st[0], "u%d" % k)
            l += o
            b += x
    if err:
        src = START_HEAD + "\n".join(x for x in l) + "\nend\n"
    else:
        # drop the duplicate opening made by k == split
        out, seen = [], 0
        for x in l:
            if x in ("dq_ segment use32", " jmp l9_"):
                if x == "dq_ segment use32":
                    seen += 1
                if seen > 1:
                    continue
            out.append(x)
        src = START_HEAD + "\n".join(out) + "\n .radix 10t\n db 200 dup (0)\n assume cs:dq_\nl9_:\ndq_ ends\nend\n"
    r = ctx.srv().asm(src, ("-bin", "-nomlib"))
    ctx.n["steps"] += len(s)
    key = "start%d:%s" % (split, "|".join(txt(o).strip() for o in s))
    ctx.outcome(err, b)
    if r.sig:
        return V(key, "signal %d" % r.sig, source=src)
    if err:
        return V(key, "no error for an unmatched POPCONTEXT", source=src) if r.exit == 0 else None
    if r.exit != 0:
        return V(key, "rejected: " + r.text()[:200], source=src)
    o = r.obj() or b""
    got = o[5:-200] if o[:1] == b"\xe9" else o[2:-200]
    if got != b:
        return V(key, "state seen: %s, expected %s" % (got.hex(), b.hex()), source=src)


# ---- states that show as errors, and the segment register assumptions -----------------
def g_misc():
    L = []

    def a(t, r):
        L.append((t, r))
    pre = "assume ds:nothing,es:nothing,fs:nothing,gs:nothing,ss:nothing\n"
    rst = "\n assume ds:nothing,es:nothing,ss:nothing,fs:Aq_,gs:Bq_,ebx:nothing"
    SR = {"ds": b"", "es": b"\x26", "ss": b"\x36", "fs": b"\x64", "gs": b"\x65"}
    for r in SR:
        a(pre + "assume %s:Aq_\n mov al,va_" % r + rst, SR[r] + b"\xa0\0\0\0\0")
        a(pre + "assume %s:seg va_\n mov al,va_" % r + rst, SR[r] + b"\xa0\0\0\0\0")
        a(pre + "assume %s:Bq_\n mov al,va_" % r + rst, None)
        a(pre + "assume %s:Aq_\nassume %s:nothing\n mov al,va_" % (r, r) + rst, None)
        a(pre + "assume %s:Aq_\nassume nothing\n mov al,va_" % r + rst, None)
        a(pre + "assume %s:Aq_\npushcontext assumes\nassume nothing\npopcontext assumes\n mov al,va_" % r + rst, SR[r] + b"\xa0\0\0\0\0")
        a(pre + "assume %s:Aq_\npushcontext assumes\nassume %s:Bq_\n mov al,vb_\npopcontext assumes\n mov al,va_" % (r, r) + rst, (SR[r] + b"\xa0\0\0\0\0") * 2)
        a(pre + "pushcontext assumes\nassume %s:Aq_\npopcontext assumes\n mov al,va_" % r + rst, None)
        a(pre + "assume %s:error\n mov al,%s:[eax]" % (r, r) + rst, None)
        a(pre + "assume %s:error\nassume %s:nothing\n mov al,%s:[eax]" % (r, r, r) + rst, SR[r] + (b"\x8a\x00" if SR[r] else b"\x3e\x8a\x00"[1:]))
        for r2 in SR:
            if r2 != r:
                a(pre + "assume %s:Aq_,%s:Bq_\n mov al,va_\n mov al,vb_" % (r, r2) + rst, SR[r] + b"\xa0\0\0\0\0" + SR[r2] + b"\xa0\0\0\0\0")
    for r, op in (("eax", b"\x40"), ("ebx", b"\x43"), ("ecx", b"\x41"), ("edx", b"\x42"), ("esi", b"\x46"), ("edi", b"\x47"), ("ebp", b"\x45"), ("bx", b"\x66\x43"),
                  ("al", b"\xfe\xc0"), ("ah", b"\xfe\xc4")):
        rr = "\n assume %s:nothing" % r
        a("assume %s:error\n inc %s" % (r, r) + rr, None)
        a("assume %s:error\nassume %s:nothing\n inc %s" % (r, r, r) + rr, op)
        a("pushcontext assumes\nassume %s:error\npopcontext assumes\n inc %s" % (r, r) + rr, op)
        a("assume %s:error\npushcontext assumes\nassume %s:nothing\n inc %s\npopcontext assumes" % (r, r, r) + rr, op)
        a("assume %s:error\npushcontext assumes\nassume %s:nothing\npopcontext assumes\n inc %s" % (r, r, r) + rr, None)
        if len(r) == 3:
            a("assume %s:ptr Sq_\n db type [%s]" % (r, r) + rr, b"\6")
            a("assume %s:ptr Sq_\nassume nothing\n db type [%s]" % (r, r) + rr, b"\0")
            a("assume %s:ptr Sq_\npushcontext all\nassume %s:ptr word\n db type [%s]\npopcontext all\n db type [%s]" % (r, r, r, r) + rr, b"\2\6")
            a("assume %s:word" % r + rr, None)
            for r2 in ("eax", "ebx", "edi"):
                if r2 != r:
                    a("assume %s:ptr Sq_,%s:ptr byte\n db type [%s],type [%s]" % (r, r2, r, r2) + rr + "\n assume %s:nothing" % r2, b"\6\1")
    for cpu, ins, need in [(c, i, n) for c in ("386", "486", "586", "686") for i, n in (("bswap eax", 486), ("rdtsc", 586), ("cmovz eax,ecx", 686), ("movzx eax,cl", 386))]:
        code = {"bswap eax": b"\x0f\xc8", "rdtsc": b"\x0f\x31", "cmovz eax,ecx": b"\x0f\x44\xc1", "movzx eax,cl": b"\x0f\xb6\xc1"}[ins]
        ok = int(cpu) >= need
        for c2 in ("386", "686"):
            # the instruction set in force follows the stack as well
            a(" .%s\npushcontext cpu\n .%s\npopcontext cpu\n %s\n .386" % (cpu, c2, ins), code if ok else None)
            a(" .%s\npushcontext cpu\n .%s\n %s\npopcontext cpu\n .386" % (c2, cpu, ins), code if ok else None)
            a(" .%s\npushcontext all\n .%s\n .%s\npopcontext all\n %s\n .386" % (cpu, c2, c2, ins), code if ok else None)
    a("assume ds", None)
    a("assume ds:", None)
    a("assume foo:Aq_", None)
    a("assume ds:foo", None)
    a("assume ds:eax", None)
    a("assume ds:5", None)
    a("assume ds:[eax]", None)
    a("assume ebx:foo", None)
    a("assume ebx:5", None)
    a("assume bl:ptr byte", None)
    a(".radix 1", None)
    a(".radix 17", None)
    a(".radix 0", None)
    a(".radix", None)
    a(".radix foo", None)
    a(".radix 10t 5", None)
    a("pushcontext foo", None)
    a("popcontext foo", None)
    a("popcontext radix", None)
    a("popcontext all", None)
    a("pushcontext radix\npopcontext all", None)
    L.pop()
    for x in ("assumes", "radix", "listing", "cpu", "alignment"):
        a("popcontext " + x, None)
        for y in ("assumes", "radix", "listing", "cpu", "alignment"):
            if x != y:
                a("pushcontext %s\npopcontext %s" % (x, y), "left" + x)
    for rx in range(2, 17):
        for p in (2, 8, 10, 16):
            # the operand of .RADIX is decimal whatever radix is in force
            v = "1" if rx == 2 else "11"
            a(" .radix %dt\n .radix %d\n db 11\n .radix 10t" % (p, rx), bytes([rx + 1]) if p != 2 or all(c in "01" for c in str(rx)) else (bytes([rx + 1]),))
        d = "0123456789abcdef"
        if rx > 2:
            a(" .radix %d\n db 0%s,10,10t,10h,11y\n .radix 10t" % (rx, d[rx - 1]), bytes([rx - 1, rx, 10, 16, 3]) if rx < 16 else None)
            if rx == 16:
                L.pop()
                a(" .radix 16\n db 0f,10,10t,10h,11y\n .radix 10t", bytes([15, 16, 10, 16, 3]))
        if rx < 10:
            a(" .radix %d\n db %d\n .radix 10t" % (rx, rx), None)
    # ALIGNMENT also covers the alignment of procedures
    return [x for x in L if not (isinstance(x[1], str))], [x for x in L if isinstance(x[1], str)]


MISC, LEFT = g_misc()


def jmisc(ctx, c):
    return batch_judge(ctx, "misc", PRE, [t for t, r in c], [r for t, r in c], POST, image=lambda r: (r.obj() or b"")[AB:])


def jleft(ctx, c):
    # a push of another kind does not satisfy a pop
    t = c[0]
    r = ctx.srv().asm(PRE + t + "\n" + POST, ("-bin", "-nomlib"))
    ctx.n["steps"] += 1
    if r.exit == 0 or r.sig:
        return V("left:" + t, "accepted" if not r.sig else "signal", source=PRE + t)


# ---- alignment of procedures -----------------------------------------------------------
def g_proc():
    ops = [("set", 1), ("set", 4), ("set", 16), "push", "pop", "pushall", "popall"]
    for n in range(1, 6 if T else 5):
        for s in itertools.product(ops, repeat=n):
            yield s


def jproc(ctx, s):
    st = {"pa": 1}
    stack = []
    l = [HEAD, ".model flat\n.code\nst_:\n"]
    off = 0
    exp = []
    err = False
    for k, o in enumerate(s):
        if o == "push":
            stack.append(("al", st["pa"]))
            l.append("pushcontext alignment\n")
        elif o == "pushall":
            stack.append(("all", 0))
            l.append("pushcontext all\n")
        elif o in ("pop", "popall"):
            w = "al" if o == "pop" else "all"
            l.append("popcontext %s\n" % ("alignment" if o == "pop" else "all"))
            i = max([i for i, x in enumerate(stack) if x[0] == w], default=-1)
            if i < 0:
                if k + 1 < len(s):
                    return None
                err = True
                break
            if w == "al":
                st["pa"] = stack[i][1]
            del stack[i]
        else:
            st["pa"] = o[1]
            l.append("option proc:private\n" if False else "option procalign:%d\n" % o[1])
        l.append(" db 0\np%d proc\np%d endp\n" % (k, k))
        off += 1
        off = -(-off // st["pa"]) * st["pa"]
        exp.append(off)
    src = "".join(l) + ".data\n dd " + ",".join("p%d-st_" % k for k in range(len(exp))) + "\nend\n"
    r = ctx.srv().asm(src, ("-bin", "-nomlib"))
    ctx.n["steps"] += len(s)
    ctx.outcome(tuple(exp), err)
    key = "proc:" + "|".join(map(str, s))
    if r.sig:
        return V(key, "signal", source=src)
    if err:
        return V(key, "no error", source=src) if r.exit == 0 else None
    want = b"".join(x.to_bytes(4, "little") for x in exp)
    got = (r.obj() or b"")[-len(want):]
    if r.exit or got != want:
        return V(key, "procedures at %s, expected %s %s" % (got.hex(), want.hex(), r.text()[:150]), source=src)


ck.explore("procedure alignment", g_proc, jproc)
ck.explore("all sequences", g_seq, jseq)
ck.explore("sequences beginning before any code", g_start, jstart)
ck.explore("assumptions, radix, errors", lambda: chunks(MISC, 24), jmisc)
ck.explore("mismatched pops", lambda: LEFT, jleft)
ck.finish("all sequences of state directives with well-formed prefixes: length <= 3 over %d directives, 4 over %d, 5%s over %d; radix, two register "
          "assumptions, segment assumption, structure alignment and cpu observed after every directive; the same with forced further passes and with the "
          "first 1..%d directives before any code; every segment register and general register assumption, every radix, every cpu gate through PUSH/POP"
          % (len(OPS + MORE), len(OPS + MORE if T else OPS), "/6/7" if T else "", len(DEEP), 4))

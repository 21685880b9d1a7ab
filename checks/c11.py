"""C11 the HLL directives: every condition tree, every nest of constructs and every .SWITCH shape within the bounds is assembled, the generated
code is run on an interpreter for every outcome of every condition it reads, and the sequence of events (condition operands read, statements
reached) is compared with that of a structured interpreter of the source."""
import itertools, os, struct, sys, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
import emu

ck = Check("C11", variants=("plain",))
T = ck.thorough
MODES = (16, 32, 64)
PRE = {16: ".686\n_text segment use16 'CODE'\nassume cs:_text,ds:_text,ss:_text,es:_text\n", 32: ".686\n.xmm\n_text segment use32 'CODE'\nassume cs:_text,ds:_text,ss:_text,es:_text\n",
       64: ".x64\n_text segment use64 'CODE'\nassume cs:_text,ds:_text,ss:_text,es:_text\n"}
POST = "_text ends\nend\n"
BX = {16: "bx", 32: "ebx", 64: "rbx"}
CX = {16: "cx", 32: "ecx", 64: "rcx"}
LIM = 60          # events per run


# ---------------------------------------------------------------- conditions --
# ("io", cell, form) / ("k", 0|1) / ("!", c) / ("&", a, b) / ("|", a, b)
FORMS = ["%s", "!%s", "%s == 1", "%s != 1", "%s == 0", "%s != 0", "%s >= 1", "%s < 1", "%s > 0", "%s <= 0", "%s & 1", "!!%s"]
FVAL = [lambda v: v, lambda v: 1 - v, lambda v: v, lambda v: 1 - v, lambda v: 1 - v, lambda v: v, lambda v: v, lambda v: 1 - v, lambda v: v,
        lambda v: 1 - v, lambda v: v, lambda v: v]


def show(c, mode, full, up=0):
    """source text; precedence: | 1, & 2, ! 3"""
    if c[0] == "io":
        return FORMS[c[2]] % ("byte ptr [%s+%d]" % (BX[mode], 8 * c[1]))
    if c[0] == "k":
        return str(c[1])
    if c[0] == "!":
        return "!(" + show(c[1], mode, full) + ")"
    p = 1 if c[0] == "|" else 2
    # the left operand needs parentheses if it binds less; a right operand of the same operator keeps its own
    a = show(c[1], mode, full, p)
    b = show(c[2], mode, full, p + 1)
    s = a + (" || " if c[0] == "|" else " && ") + b
    return "(" + s + ")" if p < up or (full and up) else s


class End(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Run:
    """the structured interpreter"""
    def __init__(self, bits, cx):
        self.bits, self.pos, self.ev, self.cx, self.n = bits, 0, [], cx, 0

    def event(self, x):
        if len(self.ev) >= LIM:
            raise End("full")
        self.ev.append(x)

    def read(self, cell):
        self.event(0x1000 + cell)
        if self.pos >= len(self.bits):
            raise End("script")
        self.pos += 1
        return self.bits[self.pos - 1]

    def cond(self, c):
        if c[0] == "io":
            return bool(FVAL[c[2]](self.read(c[1])))
        if c[0] == "k":
            return bool(c[1])
        if c[0] == "!":
            return not self.cond(c[1])
        if c[0] == "&":
            return self.cond(c[1]) and self.cond(c[2])
        return self.cond(c[1]) or self.cond(c[2])

    def tick(self):
        self.n += 1
        if self.n > 400:
            raise End("endless")

    def block(self, b):
        for s in b:
            self.stmt(s)

    def stmt(self, s):
        k = s[0]
        if k == "e":
            self.event(s[1])
        elif k == "if":
            for c, b in s[1]:
                if self.cond(c):
                    return self.block(b)
            if s[2] is not None:
                self.block(s[2])
        elif k in ("while", "for"):
            while s[1] is None or self.cond(s[1]):
                self.tick()
                try:
                    self.block(s[2])
                except Cont:
                    pass
                except Brk:
                    break
        elif k == "repeat":
            while True:
                self.tick()
                try:
                    self.block(s[1])
                except Cont:
                    pass
                except Brk:
                    break
                if s[2] is None or self.cond(s[2]):
                    break
        elif k == "cxz":
            while True:
                self.tick()
                try:
                    self.block(s[1])
                except Cont:
                    pass
                except Brk:
                    break
                r = s[2] is not None and self.cond(s[2])
                self.cx = (self.cx - 1) & 0xffff
                if self.cx == 0 or r:
                    break
        elif k == "sw":
            v = self.read(s[1])
            for n, (val, b) in enumerate(s[2]):
                if val is None or val == v:
                    if not b and s[2][n + 1:] and s[2][n + 1][0] is not None:
                        b = s[2][n + 1][1]     # .CASE directly behind .CASE: both have the same code
                    try:
                        self.block(b)
                    except Brk:
                        pass
                    break
        elif k == "brk":
            if s[1] is None or self.cond(s[1]):
                raise Brk
        elif k == "cont":
            if s[1] is None or self.cond(s[1]):
                raise Cont
        else:
            raise ValueError(k)

    def go(self, prog):
        try:
            self.block(prog)
            return "halt"
        except End as e:
            return e.args[0]


def src(b, mode, full, out, ind=1):
    p = " " * ind
    for s in b:
        k = s[0]
        if k == "e":
            out.append(p + "int %d" % s[1])
        elif k == "if":
            for n, (c, bb) in enumerate(s[1]):
                out.append(p + (".elseif " if n else ".if ") + show(c, mode, full))
                src(bb, mode, full, out, ind + 1)
            if s[2] is not None:
                out.append(p + ".else")
                src(s[2], mode, full, out, ind + 1)
            out.append(p + ".endif")
        elif k == "while":
            out.append(p + ".while " + (show(s[1], mode, full) if s[1] is not None else ""))
            src(s[2], mode, full, out, ind + 1)
            out.append(p + ".endw")
        elif k == "for":
            out.append(p + ".for (:" + (show(s[1], mode, full) if s[1] is not None else "") + (":)" if not s[3] else ":esi++)"))
            src(s[2], mode, full, out, ind + 1)
            out.append(p + ".endfor")
        elif k == "repeat":
            out.append(p + ".repeat")
            src(s[1], mode, full, out, ind + 1)
            out.append(p + ".until " + (show(s[2], mode, full) if s[2] is not None else ""))
        elif k == "cxz":
            out.append(p + ".repeat")
            src(s[1], mode, full, out, ind + 1)
            out.append(p + ".untilcxz " + (show(s[2], mode, full) if s[2] is not None else ""))
        elif k == "sw":
            out.append(p + ".switch byte ptr [%s+%d]" % (BX[mode], 8 * s[1]))
            for val, b in s[2]:
                out.append(p + (".default" if val is None else ".case %d" % val))
                src(b, mode, full, out, ind + 1)
            out.append(p + ".endswitch")
        elif k in ("brk", "cont"):
            out.append(p + (".break" if k == "brk" else ".continue") + (" .if " + show(s[1], mode, full) if s[1] is not None else ""))
    return out


CX0 = 3
GROUP = 24


def module(mode, progs):
    L = [PRE[mode]]
    L += [" dd p%d" % n + "-p_" if False else " dw offset p%d" % n if mode == 16 else " dd offset p%d" % n for n in range(len(progs))]
    for n, t in enumerate(progs):
        if t.startswith("~"):       # the same within a macro
            L.append("m%d macro\n%s\nendm\np%d:\nm%d" % (n, t[1:], n, n))
        else:
            L.append("p%d:" % n)
            L.append(t)
        L.append(" hlt")
    L.append(POST)
    return "\n".join(L)


def build(ctx, mode, texts):
    """[(image, entry)] or None for each program"""
    r = ctx.srv().asm(module(mode, texts), ("-q", "-bin", "-nomlib"))
    if r.exit == 0 and not r.sig and r.obj():
        img = r.obj()
        return [(img, e) for e in struct.unpack_from("<%d%s" % (len(texts), "H" if mode == 16 else "I"), img)]
    if len(texts) == 1:
        return [r.text()[-300:] or "killed"]
    return sum((build(ctx, mode, [t]) for t in texts), [])


def explore_prog(e, entry, prog, mode, maxbits, maxruns=400):
    """None or (bits, what)"""
    st = [()]
    n = 0
    while st:
        bits = st.pop()
        n += 1
        ref = Run(bits, CX0)
        want = ref.go(prog)
        got = e.run(entry, bits, {3: e.io, 1: CX0, 6: 0, 14: 0}, maxsteps=4000)
        tr = e.trace()
        if want == "endless" and got in (emu.STEPS, emu.TRACEFULL):
            m = min(len(tr), len(ref.ev))
            if tr[:m] == ref.ev[:m]:
                continue
        g = {emu.HALT: "halt", emu.SCRIPT: "script", emu.TRACEFULL: "full"}.get(got, emu.NAME[got])
        if g != want or tr != ref.ev:
            return n, (bits, "events %s, %s; expected %s, %s" % (fmt(tr), g, fmt(ref.ev), want))
        if want == "halt" and e.c.r[4] != e.top:
            return n, (bits, "stack pointer off by %d" % (e.c.r[4] - e.top))
        if want == "script" and len(bits) < maxbits and n < maxruns:
            st.append(bits + (1,))
            st.append(bits + (0,))
    return n, None


def fmt(ev):
    return " ".join("io%d" % (x - 0x1000) if x >= 0x1000 else "e%d" % x for x in ev[:24])


def judge(ctx, case):
    """case: (mode, full, tag, maxbits, [prog])"""
    mode, full, tag, maxbits, progs = case
    texts = [("~" if full == 2 else "") + "\n".join(src(p, mode, full == 1, [])) for p in progs]
    bl = build(ctx, mode, texts)
    out = []
    e = None
    for k, (p, t) in enumerate(zip(progs, texts)):
        b = bl[k]
        if isinstance(b, str):
            if "A2075" in b and "cxz" in key(p):           # LOOP has short jumps only
                ctx.n["loop out of range"] += 1
                continue
            out.append(V("%s%s:%d:%s" % (tag, "-macro" if full == 2 else "", mode, key(p)), "not accepted: %s" % b, source=t))
            continue
        if e is None or e.orig != b[0]:
            e = emu.Emu(mode, b[0], maxtrace=LIM)
        n, w = explore_prog(e, b[1], p, mode, maxbits)
        ctx.n["runs"] += n
        ctx.n["steps"] += n * 10
        ctx.n["programs"] += 1
        if w:
            out.append(V("%s%s:%d:%s" % (tag, "-macro" if full == 2 else "", mode, key(p)), "conditions read as %s: %s" % ("".join(map(str, w[0])), w[1]), source=t))
        else:
            ctx.outcome(tag, mode, n)
    if out and len(out) < len(progs):
        pass
    return out


def key(p):
    return repr(p).replace(" ", "").replace("'", "").replace("None", "-")


# ------------------------------------------------- B1 condition trees --------
def trees(n):
    """condition skeletons with n leaves: nested tuples, leaf None"""
    if n == 1:
        yield None
        return
    for k in range(1, n):
        for a in trees(k):
            for b in trees(n - k):
                for op in "&|":
                    yield (op, a, b)


def nots(t, root=True):
    """every placement of ! over the inner nodes"""
    if t is None:
        yield None
        return
    for a in nots(t[1], False):
        for b in nots(t[2], False):
            yield (t[0], a, b)
            yield ("!", (t[0], a, b))


def fill(t, forms, n=None):
    n = n if n is not None else [0]
    if t is None:
        f = forms[n[0]]
        n[0] += 1
        return ("k", -f - 1) if f < 0 else ("io", n[0], f)
    if t[0] == "!":
        return ("!", fill(t[1], forms, n))
    a = fill(t[1], forms, n)
    return (t[0], a, fill(t[2], forms, n))


def E(n):
    return ("e", n)


POS = {
    "if": lambda c: [("if", [(c, [E(1)])], None), E(9)],
    "ifelse": lambda c: [("if", [(c, [E(1)])], [E(2)]), E(9)],
    "elseif": lambda c: [("if", [(("io", 20, 0), [E(1)]), (c, [E(2)])], [E(3)]), E(9)],
    "while": lambda c: [("while", c, [E(1)]), E(9)],
    "whilec": lambda c: [("while", c, [E(1), ("cont", ("io", 20, 0)), E(2)]), E(9)],
    "until": lambda c: [("repeat", [E(1)], c), E(9)],
    "untilc": lambda c: [("repeat", [E(1), ("cont", ("io", 20, 0)), E(2)], c), E(9)],
    "breakif": lambda c: [("while", ("k", 1), [E(1), ("brk", c), E(2)]), E(9)],
    "contif": lambda c: [("while", ("io", 20, 0), [E(1), ("cont", c), E(2)]), E(9)],
    "contrep": lambda c: [("repeat", [E(1), ("cont", c), E(2)], ("io", 20, 0)), E(9)],
    "brkrep": lambda c: [("repeat", [E(1), ("brk", c), E(2)], ("io", 20, 0)), E(9)],
    "ifrep": lambda c: [("repeat", [("if", [(c, [E(1)])], [E(2)])], ("io", 20, 0)), E(9)],
    "for": lambda c: [("for", c, [E(1)], 1), E(9)],
    "forc": lambda c: [("for", c, [E(1), ("cont", ("io", 20, 0)), E(2)], 1), E(9)],
}


def conds(nl):
    for t in trees(nl):
        for u in nots(t):
            yield u


def gen_b1():
    buf = {}

    def put(mode, full, pos, c, mb):
        k = (mode, full, mb)
        buf.setdefault(k, []).append(POS[pos](c))
        if len(buf[k]) >= GROUP:
            return (mode, full, "cond", mb, buf.pop(k))

    nf = len(FORMS)
    rot = 0
    for nl in (1, 2, 3, 4) + ((5,) if T else ()):
        for u in conds(nl):
            if nl <= 2:
                fs = itertools.product(list(range(nf)) + [-1, -2], repeat=nl)
            elif nl == 3:
                fs = list(itertools.product((0, 1), repeat=3)) + [tuple(-1 if k == j else -2 if k == j - 3 else 0 for k in range(3)) for j in range(6)] + [(rot % nf, (rot // 2 + 3) % nf, (rot // 3 + 6) % nf)]
            else:
                fs = [(0,) * nl, tuple((rot + 5 * k) % nf for k in range(nl))] + ([tuple((rot >> k) & 1 for k in range(nl))] if T else [])
            for f in fs:
                rot += 1
                c = fill(u, f)
                for full in ((0, 1) if nl > 1 else (0,)):
                    for pn, pos in enumerate(POS):
                        if nl >= 4 and not T and (rot + pn) % 3:
                            continue
                        for mode in MODES:
                            if pos in ("for", "forc") and mode == 16:
                                continue
                            if nl > 1 and not T and mode != MODES[(rot + pn) % 3] and (pos not in ("for", "forc")):
                                continue
                            x = put(mode, full, pos, c, 5 if nl < 4 else 6)
                            if x:
                                yield x
    for (mode, full, mb), v in buf.items():
        if v:
            yield (mode, full, "cond", mb, v)


# ------------------------------------------------------- B2 nests ------------
def splits(n, k):
    if k == 1:
        yield (n,)
        return
    for a in range(n + 1):
        for r in splits(n - a, k - 1):
            yield (a,) + r


SHAPES = [("if", 1), ("ifelse", 2), ("elif", 2), ("elifelse", 3), ("while", 1), ("for", 1), ("for0", 1), ("repeat", 1), ("repeat0", 1), ("cxz", 1), ("cxzif", 1), ("sw", 2), ("swd", 3)]


def forests(n, brk, cont, mode):
    """all sequences of statements with n directives that open a block or leave one"""
    if n == 0:
        yield ()
        return
    for a in range(1, n + 1):
        for h in stmts(a, brk, cont, mode):
            for t in forests(n - a, brk, cont, mode):
                yield (h,) + t


def stmts(n, brk, cont, mode):
    if n == 1:
        if brk:
            yield ("brk",)
            yield ("brkif",)
        if cont:
            yield ("cont",)
            yield ("contif",)
    for k, nb in SHAPES:
        if mode == 16 and k in ("for", "for0", "sw", "swd"):
            continue
        loop = k[:5] in ("while", "repea") or k[:3] in ("for", "cxz")
        for sp in splits(n - 1, nb):
            for bl in itertools.product(*[list(forests(m, brk or loop or k[:2] == "sw", cont or loop, mode)) for m in sp]):
                yield (k,) + bl


def decorate(f, bare, ccnt):
    """adds the events and the conditions"""
    ev, cell = [9], [-1]

    def io():
        cell[0] = (cell[0] + 1) % 8
        return cell[0]

    def cond():
        if ccnt == 0:
            return ("io", io(), 0)
        if ccnt == 1:
            return ("&", ("io", io(), 2), ("!", ("|", ("io", io(), 0), ("io", io(), 1))))
        return ("|", ("io", io(), 3), ("&", ("io", io(), 0), ("k", 1)))

    def e():
        ev[0] += 1
        return ("e", ev[0])

    def block(b):
        out = [] if bare else [e()]
        for s in b:
            out.append(stmt(s))
            if not bare:
                out.append(e())
        return out

    def stmt(s):
        k = s[0]
        if k == "if":
            return ("if", [(cond(), block(s[1]))], None)
        if k == "ifelse":
            return ("if", [(cond(), block(s[1]))], block(s[2]))
        if k == "elif":
            return ("if", [(cond(), block(s[1])), (cond(), block(s[2]))], None)
        if k == "elifelse":
            return ("if", [(cond(), block(s[1])), (cond(), block(s[2]))], block(s[3]))
        if k == "while":
            return ("while", cond(), block(s[1]))
        if k in ("for", "for0"):
            return ("for", cond() if k == "for" else None, block(s[1]), 1)
        if k in ("repeat", "repeat0"):
            b = block(s[1])
            return ("repeat", b, cond() if k == "repeat" else ("k", 0))
        if k in ("cxz", "cxzif"):
            b = block(s[1])
            return ("cxz", b, ("io", io(), 2) if k == "cxzif" else None)
        if k in ("sw", "swd"):
            c = io()
            bl = [block(b) for b in s[1:]]
            return ("sw", c, [(1, bl[0])] + ([(0, bl[1])] if k == "sw" else [(0, bl[1]), (None, bl[2])]))
        return (k[:-2], cond()) if k.endswith("if") else (k, None)
    return block(f) + [("e", 8)]


def gen_b2():
    buf = {}
    rot = 0
    for n in (1, 2, 3) + ((4,) if T else ()):
        for mode in MODES:
            for f in forests(n, False, False, mode):
                rot += 1
                if n == 4 and rot % 3 != mode // 32:
                    continue
                for bare in ((0, 1) if n < 3 or T and n < 4 else (0,)):
                    for cc in ((0, 1, 2) if n == 1 or T and n == 2 else (0, 1) if n == 2 else (0,)):
                        for wrap in ((0, 2) if n < 3 else (0,)):
                            k = (mode, wrap)
                            buf.setdefault(k, []).append(decorate(f, bare, cc))
                            if len(buf[k]) >= GROUP:
                                yield (mode, wrap, "nest", 7 if n < 3 else 6, buf.pop(k))
    for (mode, wrap), v in buf.items():
        yield (mode, wrap, "nest", 6, v)


# ------------------------------------------------------- C .SWITCH -----------
PREF = {32: ".686\n.xmm\n.model flat\n", 64: ".x64\n.model flat\n"}
OPND = {  # name -> (source, size, signed load), by mode
    32: [("eax", "eax", 4), ("ecx", "ecx", 4), ("cl", "cl", 1), ("cx", "cx", 2), ("mb", "vb", 1), ("mw", "vw", 2), ("md", "vd", 4), ("ind", "dword ptr [esi]", 4), ("ind1", "byte ptr [esi+4*edi+3]", 1)],
    64: [("eax", "eax", 4), ("rax", "rax", 8), ("ecx", "ecx", 4), ("rcx", "rcx", 8), ("cl", "cl", 1), ("cx", "cx", 2), ("mb", "vb", 1), ("mw", "vw", 2), ("md", "vd", 4), ("mq", "vq", 8),
         ("ind", "dword ptr [rsi]", 4), ("ind8", "qword ptr [rsi+8*rdi]", 8), ("r9d", "r9d", 4), ("r9", "r9", 8), ("r9b", "r9b", 1)],
}


def swsrc(case):
    mode, style, opn, cases, dflt, brk = case
    o = dict((a, b) for a, b, c in OPND[mode])[opn]
    L = [PREF[mode]]
    if style:
        L.append("option switchstyle:asmstyle" if style == 1 else "option switchstyle:cstyle")
    L += [".data", "vb label byte", "vw label word", "vd label dword", "vq dq 0", ".code", " dd offset p0", " dd offset vq", "p0:", ".switch " + o]
    def df():
        L.append(".default")
        L.append(" int 200")
        if brk != 2:
            L.append(" .break")
    for k, vals in enumerate(cases):
        if dflt == k:
            df()
        if isinstance(vals, list):           # stacked labels
            for v in vals:
                L.append(".case %s" % lit(v))
        else:
            L.append(".case " + ", ".join(lit(v) for v in vals))
        L.append(" int %d" % (10 + k % 180))
        if k >= 180:
            L.append(" int 201\n" * 1 + " nop")
        # brk: 0 every case ends in .break, 1 odd cases fall through, 2 the last one has none, 3 no .break at all (assembler style)
        if not (brk == 3 or brk == 1 and k % 2 == 0 or brk == 2 and k == len(cases) - 1):
            L.append(" .break")
    if dflt == len(cases):
        df()
    L += [".endswitch", " int 250", " hlt", "end"]
    return "\n".join(L)


def lit(v):
    if isinstance(v, str):
        return v
    return str(v) if abs(v) < 1 << 31 else ("-" if v < 0 else "") + "0%xh" % abs(v)


def val(v):
    return ord(v[1]) if isinstance(v, str) else v


def swref(case, x, size):
    """events for the operand value x (unsigned, size bytes)"""
    mode, style, opn, cases, dflt, brk = case
    bits = 64 if size == 8 else 32
    seq = []          # (values or None, events, leaves)
    for k, vals in enumerate(cases):
        if dflt == k:
            seq.append((None, [200], style != 2 or brk != 2))
        ev = [10 + k % 180] + ([201] if k >= 180 else [])
        seq.append(([val(v) % (1 << bits) for v in vals], ev, style != 2 or not (brk == 3 or brk == 1 and k % 2 == 0 or brk == 2 and k == len(cases) - 1)))
    if dflt == len(cases):
        seq.append((None, [200], True if style != 2 else brk != 2))
    at = next((n for n, s in enumerate(seq) if s[0] is not None and x in s[0]), None)
    if at is None:
        at = next((n for n, s in enumerate(seq) if s[0] is None), None)
    ev = []
    if at is not None:
        for s in seq[at:]:
            ev += s[1]
            if s[2]:
                break
    return ev + [250]


def jswitch(ctx, case):
    mode, style, opn, cases, dflt, brk = case
    size = dict((a, c) for a, b, c in OPND[mode])[opn]
    s = swsrc(case)
    kk = "switch:%d:%s:%s:%s:d%s:b%d" % (mode, ("-", "asm", "c")[style], opn, ckey(cases), dflt, brk)
    r = ctx.srv().asm(s, ("-q", "-bin", "-nomlib"))
    ctx.n["programs"] += 1
    if r.exit or r.sig or not r.obj():
        big = any(not -1 << 31 <= val(v) < 1 << 31 for c in cases for v in c)
        if mode == 64 and size == 8 and big and r.exit == 1 and not r.sig:
            ctx.n["not encodable"] += 1
            return None
        return V(kk, "not accepted: " + (r.text()[-200:] or "killed"), source=s)
    img = r.obj()
    ent, vq = struct.unpack_from("<2I", img)
    if ent >= len(img) or vq + 8 > len(img):
        return V(kk, "entry point %xh or variable %xh outside of the %xh bytes of the image" % (ent, vq, len(img)), source=s)
    bits = 8 * size
    e = emu.Emu(mode, img, maxtrace=LIM)
    allv = [val(v) for c in cases for v in c]
    xs = set([0, 1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1])
    vs = allv if len(allv) < 40 or T else allv[:12] + allv[-12:] + allv[::7] + sorted(allv)[:6] + sorted(allv)[-6:]
    for v in vs:
        xs |= {v & ((1 << bits) - 1), (v + 1) & ((1 << bits) - 1), (v - 1) & ((1 << bits) - 1)}
        if bits == 64:
            xs |= {(v + (1 << 32)) & ((1 << 64) - 1)}
    mem = opn[0] == "m" or opn[:3] == "ind"
    for x in sorted(xs):
        want = swref(case, x, size)
        regs = {0: x, 1: x, 9: x, 3: 0x1234, 5: 0x777} if not mem else {}
        if size < 8 and not mem:
            junk = 0x5a5a5a5a5a5a5a00 if mode == 64 else 0x5a5a5a00
            j = (junk >> bits << bits) & ((1 << (64 if mode == 64 else 32)) - 1)
            regs[1] = x | j
            regs[9] = x | j
            if size == 4:
                regs[0] = x
        regs[6], regs[7] = vq, 0
        if opn == "ind1":
            regs[6], regs[7] = vq - 3 - 8, 2
        e.reset_image()
        e.img[vq:vq + 8] = (x | (0x7777777777777777 >> bits << bits if bits < 64 else 0)).to_bytes(8, "little")
        st = e.run(ent, (), regs, maxsteps=3000)
        ctx.n["runs"] += 1
        ctx.n["steps"] += e.c.steps
        tr = e.trace()
        if st == emu.TRACEFULL and len(want) > len(tr) and tr == want[:len(tr)]:
            continue
        if st != emu.HALT or tr != want or e.c.r[4] != e.top:
            return V(kk, "value %xh: events %s, %s%s; expected %s" % (x, fmt(tr), emu.NAME[st], "" if e.c.r[4] == e.top or st else ", stack pointer off by %d" % (e.c.r[4] - e.top), fmt(want)), source=s)
    ctx.outcome("switch", mode, style, opn, len(allv))
    return None


def ckey(cases):
    flat = [v for c in cases for v in c]
    s = ";".join("+".join(lit(v) for v in c) if isinstance(c, list) else ",".join(lit(v) for v in c) for c in cases) if len(flat) <= 12 else "%d.%s..%s.%08x" % (len(flat), lit(flat[0]), lit(flat[-1]), zlib.crc32(repr(flat).encode()))
    return s.replace(" ", "")


def swsets():
    yield []
    base = [0, 1, 2, 3, 4, 7, 10, 200, 255, 256, 1000, 0x3fff, 0x4000, 70000, -1, -2, -100, 0x7fffffff, -0x80000000, "'a'"]
    for v in base:
        yield [v]
    for p in itertools.permutations([0, 1, 5, -3, 300], 2):
        yield list(p)
    for p in itertools.permutations([2, 0, 900, -1], 3):
        yield list(p)
    for p in itertools.permutations([3, 1, 2, 9], 4):
        yield list(p)
    # every choice of the table kind: dense, byte index, word index, tree; ascending, descending, with gaps; counts around the row length
    for n in ((4, 5, 6, 7, 8, 15, 16, 17, 29, 30, 31, 32, 49, 50, 51, 60, 61, 74, 75, 76, 77, 99, 100, 101, 149, 150, 151, 152, 153, 224, 225, 226, 300) if T else (4, 5, 6, 8, 16, 30, 31, 61, 74, 75, 76, 77, 150, 151, 226)):
        for lo in (0, 1, -5, 1000, -70000):
            for step in (1, 2, 3, 60, 1000, 100000):
                if n * step > 0x7fffff00 or (lo not in (0, -5) and n not in (5, 75, 76) and not T):
                    continue
                yield [lo + k * step for k in range(n)]
        yield [k for k in range(n)][::-1]
        yield [k if k < n - 1 else n + 20 for k in range(n)]                     # one gap
        yield [k if k < n - 1 else n * 4 for k in range(n)]
        yield [k if k < n - 1 else 5000 for k in range(n)]
        yield [k if k < n - 1 else 0x3fff for k in range(n)]
        yield [k if k < n - 1 else 0x4000 for k in range(n)]
        yield [k if k < n - 1 else 100000 for k in range(n)]
    for d in (5, 6, 7, 254, 255, 256, 257, 0x3ffe, 0x3fff, 0x4000, 0x4001, 0x10000, 0x7fffffff, 0x20000000, 0x40000000):
        yield [0, 1, 2, d]
        yield [d, 2, 1, 0]
        if d < 0x7fffff00:
            yield [-2, -1, d, 2]
            yield [-7, d - 7, -5, -6, -3]
    yield [-0x80000000, 0x7fffffff, 0, 1]
    yield [-0x80000000, 0x7fffffff, 0, 1, 2, 3]
    yield ["'a'", "'b'", "'z'", "'A'"]


SW64 = [[1 << 32, (1 << 32) + 1, 5, 6], [-(1 << 40), 0, 1 << 40, 3], [1 << 32, 1], [1 << 33], [(1 << 62), 1, 2, 3, 4], [-(1 << 62), 1 << 62, 0, 1], [(1 << 32) + k for k in range(8)], [(1 << 35) + 3 * k for k in range(8)], [(1 << 35) + 300 * k for k in range(8)]]


def gen_sw():
    rot = 0
    for mode in (32, 64):
        names = [a for a, b, c in OPND[mode]]
        wide = {c: [a for a, b, cc in OPND[mode] if cc == c] for c in (1, 2, 4, 8)}
        for vs in list(swsets()) + (SW64 if mode == 64 else []):
            iv = [val(v) for v in vs]
            fit = [a for a, b, c in OPND[mode] if all((0 <= v < 1 << (8 * c)) if c < 4 else -(1 << (8 * c - 1)) <= v < 1 << (8 * c - 1) for v in iv)]
            small = len(vs) <= 4
            n = len(vs)
            for opn in (fit if small and (T or n < 2 or rot % 16 == 0) else [fit[rot % len(fit)]] + (["rcx"] if mode == 64 and "rcx" in fit and (T or not small) else []) + ["ecx"] * ("ecx" in fit and (T or not small))):
                rot += 1
                for dflt in ((None, n) if not small else (None, n, 0) + ((n // 2,) if n > 1 else ())):
                    if not small and rot % 2 and dflt is not None and not T:
                        continue
                    cs = [(v,) for v in vs]
                    yield (mode, 2, opn, cs, dflt, 0)
                    if small or rot % 4 == 0:
                        yield (mode, 2, opn, cs, dflt, 1)
                        yield (mode, 2, opn, cs, dflt, 2)
                        yield (mode, 2, opn, cs, dflt, 3)
                        yield (mode, 1, opn, cs, dflt, 3)
                        yield (mode, 0, opn, cs, dflt, 0)
                if n >= 4:
                    # cases that share their code: lists and stacked labels
                    for g in (2, 3):
                        cs = [tuple(vs[k:k + g]) for k in range(0, n, g)]
                        yield (mode, rot % 3, opn, cs, len(cs) if rot % 3 else None, 3 if rot % 3 < 2 else 0)
                        yield (mode, 2, opn, [list(c) for c in cs], len(cs) if rot % 3 else None, 0)
                        yield (mode, 0, opn, [list(c) for c in cs], len(cs) if rot % 3 else None, 3)
                    cs = [tuple(vs[k::3]) for k in range(3)]
                    yield (mode, 2, opn, cs, None, 0)
                    yield (mode, 2, opn, [(vs[0], vs[1])] + [(v,) for v in vs[2:]], n - 1, 0)


# ------------------------------------------------------- A comparisons -------
SGN = {1: "sbyte", 2: "sword", 4: "sdword", 8: "sqword"}
UNS = {1: "byte", 2: "word", 4: "dword", 8: "qword"}
RGS = {1: ("cl", "dl", "al", "r9b"), 2: ("cx", "dx", "si", "r9w"), 4: ("ecx", "edx", "ebp", "r9d"), 8: ("rcx", "rdx", "rax", "r9")}
RN = {"cl": 1, "dl": 2, "al": 0, "cx": 1, "dx": 2, "si": 6, "ecx": 1, "edx": 2, "ebp": 5, "rcx": 1, "rdx": 2, "rax": 0, "r9b": 9, "r9w": 9, "r9d": 9, "r9": 9}
OPS = ["==", "!=", "<", "<=", ">", ">=", "&"]
FLG = [("zero?", 0x40), ("carry?", 1), ("sign?", 0x80), ("parity?", 4), ("overflow?", 0x800)]
BXI = {16: "bx", 32: "ebx", 64: "rbx"}


def bound(sz):
    n = 8 * sz
    return [0, 1, 2, (1 << (n - 1)) - 1, 1 << (n - 1), (1 << (n - 1)) + 1, (1 << n) - 2, (1 << n) - 1]


def lefts(mode, sz):
    """(source, signed, register or None)"""
    for r in RGS[sz][:3 if mode < 64 else 4]:
        if mode == 64 or r[0] != "r":
            yield r, 0, RN[r]
            yield SGN[sz] + " ptr " + r, 1, RN[r]
            yield UNS[sz] + " ptr " + r, 0, RN[r]
    yield "v_" + UNS[sz], 0, None
    yield "v_" + SGN[sz], 1, None
    yield "%s ptr [%s]" % (UNS[sz], BXI[mode]), 0, None
    yield "%s ptr [%s]" % (SGN[sz], BXI[mode]), 1, None
    yield "%s ptr [%s+0]" % (SGN[sz], BXI[mode]), 1, None
    yield "s_.%s" % ("m" + UNS[sz]), 0, None
    yield "[%s].st_.%s" % (BXI[mode], "m" + SGN[sz]), 1, None


def rights(mode, sz, reg, mem):
    n = 8 * sz
    for v in bound(sz) + [7, 0x7f, 0x80, 0x81, 0xff, 0x100]:
        if v < 1 << n and (v < 1 << 31 or sz < 8):
            yield str(v), 0, ("k", v)
    for v in (-1, -2, -0x80, -0x81, -(1 << (min(n, 32) - 1))):
        if v >= -(1 << (n - 1)):
            yield str(v), 0, ("k", v)
    yield ("0%xh" % (0x5a5a5a5a & ((1 << n) - 1))), 0, ("k", 0x5a5a5a5a & ((1 << n) - 1))
    for r in RGS[sz][:3 if mode < 64 else 4]:
        if (mode == 64 or r[0] != "r") and RN[r] != reg:
            yield r, 0, ("r", RN[r])
            yield SGN[sz] + " ptr " + r, 1, ("r", RN[r])
    if reg is not None:
        yield "w_" + UNS[sz], 0, ("m",)
        yield "w_" + SGN[sz], 1, ("m",)
        yield "%s ptr [%s+8]" % (SGN[sz], BXI[mode]), 1, ("m",)


SHP = [".if %s\n int 1\n.else\n int 2\n.endif", ".if !(%s)\n int 2\n.else\n int 1\n.endif", ".while %s\n int 1\n hlt\n.endw\n int 2", ".repeat\n.break .if %s\n int 2\n hlt\n.until 1\n int 1",
       ".for (: %s :)\n int 1\n hlt\n.endfor\n int 2"]
def amodule(mode, texts):
    # the variables first, then the table of entry points
    L = [PRE[mode], "st_ struct\nunion"]
    L += ["m%s %s ?" % (t, t) for k in (1, 2, 4, 8) for t in (UNS[k], SGN[k])]
    L += ["ends\nst_ ends"]
    for v in "vws":
        if v != "s":
            L += ["%s_%s label %s" % (v, t, t) for k in (1, 2, 4, 8) for t in (UNS[k], SGN[k])]
        else:
            L += ["org 0\ns_ st_ <>\norg 16"]
        if v != "s":
            L += [" dq 0"]
    L += [(" dw" if mode == 16 else " dd") + " offset p%d" % n for n in range(len(texts))]
    for n, t in enumerate(texts):
        L.append("p%d:\n%s\n hlt" % (n, t))
    L.append(POST)
    return "\n".join(L)


def gen_a():
    buf = {}
    rot = 0
    for mode in MODES:
        for sz in (1, 2, 4) + ((8,) if mode == 64 else ()):
            for lt, ls, reg in lefts(mode, sz):
                for rt, rs, rk in list(rights(mode, sz, reg, 0)) + [(None, 0, None)]:
                    for op in OPS if rt is not None else ("",):
                        sg = (ls or rs)
                        if rk and rk[0] == "k" and sg and op in ("<", "<=", ">", ">=") and rk[1] >= 1 << (8 * sz - 1):
                            continue
                        for sh in range(len(SHP) - (mode == 16)) if T else (rot % (len(SHP) - (mode == 16)),):
                            buf.setdefault((mode, sz), []).append((lt, reg, rt, rk, op, sg, sh))
                            if len(buf[(mode, sz)]) >= 60:
                                yield (mode, sz, buf.pop((mode, sz)))
                        rot += 1
    for (mode, sz), v in buf.items():
        yield (mode, sz, v)


def judge_a(ctx, case):
    mode, sz, items = case
    texts = [SHP[it[6]] % ("%s %s %s" % (it[0], it[4], it[2]) if it[2] is not None else it[0]) for it in items]
    n = 8 * sz

    def tob(v):
        v &= (1 << n) - 1
        return v

    def sgn(v):
        v = tob(v)
        return v - (1 << n) if v >> (n - 1) else v

    def bld(ts):
        r = ctx.srv().asm(amodule(mode, ts), ("-q", "-bin", "-nomlib"))
        if r.exit == 0 and not r.sig and r.obj():
            return [(r.obj(), e) for e in struct.unpack_from("<%d%s" % (len(ts), "H" if mode == 16 else "I"), r.obj(), 16)]
        if len(ts) == 1:
            return [r.text()[-300:] or "killed"]
        return sum((bld([t]) for t in ts), [])
    out = []
    e = None
    bv = bound(sz)
    for it, t, b in zip(items, texts, bld(texts)):
        lt, reg, rt, rk, op, sg, sh = it
        kk = ("cmp:%d:%s:%s:%s:%d" % (mode, lt, op, rt, sh)).replace(" ", "_")
        if isinstance(b, str):
            out.append(V(kk, "not accepted: " + b, source=t))
            continue
        ctx.n["programs"] += 1
        if e is None or e.orig != b[0]:
            e = emu.Emu(mode, b[0], maxtrace=16)
        if rk is None or rk[0] == "k":
            pr = [(x, rk[1] if rk else 0) for x in sorted(set(bv + ([tob(rk[1] + d) for d in (-1, 0, 1)] if rk else [])))]
        else:
            pr = [(x, y) for x in bv for y in bv]
        junk = 0x6b6b6b6b6b6b6b6b >> n << n if n < 64 else 0
        if mode < 64:
            junk &= 0xffffffff
        vecs, want = [], []
        rr = rk[1] if rk and rk[0] == "r" else None
        for x, y in pr:
            # registers: left, right, pointer; cells 0 and 8
            v = []
            vecs.append(([x | junk] if reg is not None else []) + ([y | junk] if rr is not None else []) + [0] + [x | (junk & (2**64 - 1)), y & ((1 << n) - 1) | junk])
            a, c = (sgn(x), sgn(y)) if sg else (tob(x), tob(y))
            w = {"==": a == c, "!=": a != c, "<": a < c, "<=": a <= c, ">": a > c, ">=": a >= c, "&": tob(x) & tob(y) != 0, "": x != 0}[op]
            want.append(1 if w else 2)
        got = e.grid(b[1], ([reg] if reg is not None else []) + ([rr] if rr is not None else []) + [3], [0, 8], vecs)
        ctx.n["runs"] += len(vecs)
        ctx.n["steps"] += 5 * len(vecs)
        for (x, y), w, g in zip(pr, want, got):
            if w != g:
                out.append(V(kk, "left %xh, right %xh: taken %s, expected %s" % (x, y & ((1 << n) - 1), g, w), source=t))
                break
    if not out:
        ctx.outcome("cmp", mode, sz)
    return out


def gen_fl():
    """flag conditions, alone and combined, and comparisons of floating point registers"""
    for mode in MODES:
        L = []
        for a, m in FLG:
            for b, m2 in FLG:
                for f in ("%s && %s", "%s || %s", "!%s && %s", "%s || !%s", "!(%s && %s)", "!(%s || !%s)"):
                    for sh in range(len(SHP) - (mode == 16)):
                        L.append((f % (a, b), m, m2, f, sh))
        for k in range(0, len(L), 60):
            yield ("fl", mode, L[k:k + 60])
    for mode in (32, 64):
        L = [(ty, lt, rt, op, sh) for ty in (4, 8) for lt in ("xmm1", "real%d ptr xmm1") for rt in ("xmm2", "real%d ptr xmm2", "v%d_", "real%d ptr [" + BXI[mode] + "]")
             for op in OPS[:6] for sh in range(len(SHP) - (mode == 16)) if ty == 4 or "%d" in lt or "%d" in rt]
        for k in range(0, len(L), 48):
            yield ("fp", mode, L[k:k + 48])


def judge_fl(ctx, case):
    kind, mode, items = case
    out = []
    if kind == "fl":
        texts = [SHP[it[4]] % it[0] for it in items]
    else:
        texts = [SHP[sh] % ("%s %s %s" % (lt % ty if "%" in lt else lt, op, rt % ty if "%" in rt else rt)) for ty, lt, rt, op, sh in items]
    pre = PRE[mode] + ("v4_ label real4\nv8_ real8 0.0\n dq 0\n" if kind == "fp" else " dq 0,0\n")
    L = [pre] + [(" dw" if mode == 16 else " dd") + " offset p%d" % n for n in range(len(texts))] + ["p%d:\n%s\n hlt" % (n, t) for n, t in enumerate(texts)] + [POST]
    r = ctx.srv().asm("\n".join(L), ("-q", "-bin", "-nomlib"))
    if r.exit or r.sig or not r.obj():
        return V("%s:%d:%s" % (kind, mode, items[0]), "not accepted: " + r.text()[-300:], source="\n".join(L))
    img = r.obj()
    e = emu.Emu(mode, img, maxtrace=16)
    for it, t, ent in zip(items, texts, struct.unpack_from("<%d%s" % (len(texts), "H" if mode == 16 else "I"), img, 16)):
        ctx.n["programs"] += 1
        if kind == "fl":
            for va in (0, 1):
                for vb in (0, 1):
                    if it[1] == it[2] and va != vb:
                        continue
                    f = {"%s && %s": va and vb, "%s || %s": va or vb, "!%s && %s": not va and vb, "%s || !%s": va or not vb, "!(%s && %s)": not (va and vb), "!(%s || !%s)": not (va or not vb)}[it[3]]
                    e.run(ent, (), {}, fl=(it[1] if va else 0) | (it[2] if vb else 0))
                    ctx.n["runs"] += 1
                    g = e.trace()
                    if g[:1] != [1 if f else 2]:
                        out.append(V("flag:%d:%s:%d" % (mode, it[0].replace(" ", ""), it[4]), "first flag %d, second flag %d: event %s, expected %d" % (va, vb, g, 1 if f else 2), source=t))
        else:
            ty, lt, rt, op, sh = it
            for a in (-2.5, -0.0, 0.0, 1.0, 1.5, 1e30):
                for b in (-2.5, 0.0, 1.0, 1.5, -1e30):
                    pk = "<f" if ty == 4 else "<d"
                    A, B = struct.pack(pk, a), struct.pack(pk, b)
                    e.reset_image()
                    for k in range(8):
                        e.c.x[1][k] = (A + b"\x11" * 8)[k]
                        e.c.x[2][k] = (B + b"\x22" * 8)[k]
                    if "xmm" not in rt:
                        e.img[0:len(B)] = B
                    e.run(ent, (), {3: 0})
                    ctx.n["runs"] += 1
                    w = {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
                    if struct.unpack(pk, B)[0] != b:
                        continue
                    g = e.trace()
                    if g[:1] != [1 if w else 2]:
                        out.append(V("fp:%d:%d:%s:%s:%s:%d" % (mode, ty, lt.replace(" ", "_"), op, rt.replace(" ", "_"), sh), "%g against %g: event %s, expected %d" % (a, b, g, 1 if w else 2), source=t))
                        break
                else:
                    continue
                break
    if not out:
        ctx.outcome(kind, mode)
    return out


# ------------------------------------------------------- D .FOR counters -----
FOPS = ["=", "+=", "-=", "&=", "|=", "^=", "<<=", ">>=", "++", "--"]


def fref(op, a, b, n):
    m = (1 << n) - 1
    return {"=": b, "+=": a + b, "-=": a - b, "&=": a & b, "|=": a | b, "^=": a ^ b, "<<=": a << (b & 31), ">>=": (a & m) >> (b & 31), "++": a + 1, "--": a - 1}[op] & m


def gen_d():
    for mode in (32, 64):
        tg = [("ebx", 3, 4), ("esi", 6, 4), ("bl", 3, 1), ("bx", 3, 2), ("v_", None, 4)] + ([("rbx", 3, 8), ("r9", 9, 8), ("r9d", 9, 4)] if mode == 64 else [])
        for t, ri, sz in tg:
            for op in FOPS:
                vals = ["0", "1", "2", "7", "15h", "127", "-1", "edi"] if op not in ("++", "--", "<<=", ">>=") else ["0", "1", "3"] if op in ("<<=", ">>=") else [""]
                for v in vals:
                    if v == "edi":
                        v = {1: "cl", 2: "di", 4: "edi", 8: "rdi"}[sz]
                    if ri is None and v == "-1":
                        continue                  # not accepted
                    for sp in (0, 1):
                        yield (mode, t, ri, sz, op, v, sp)


def num(v):
    return 0x1d if v in ("cl", "di", "edi", "rdi") else int(v[:-1], 16) if v.endswith("h") else int(v or "0")


def judge_d(ctx, case):
    """the statement as initialisation, as the only step, as first and as second of two steps"""
    mode, t, ri, sz, op, v, sp = case
    st = (t + " " + op + " " + v).rstrip() if sp else t + op + v
    cn = "ebp" if mode == 32 else "ebp"
    progs = [
        (".for (%s : edx < 2 : edx++)\n int 1\n.endfor" % st, 1, 2),
        (".for (edx = 0, %s : edx < 2 : edx++)\n int 1\n.endfor" % st, 1, 2),
        (".for (%s, edx = 0 : edx < 2 : edx++)\n int 1\n.endfor" % st, 1, 2),
        (".for (edx = 0 : edx < 3 : %s, edx++)\n int 1\n.endfor" % st, 3, 3),
        (".for (edx = 0 : edx < 3 : edx++, %s)\n int 1\n.endfor" % st, 3, 3),
        (".for (: edx < 3 : edx += 1 , %s , edx += 1)\n int 1\n.endfor" % st, 2, 2),
        (".for (: edx < 3 : edx++, %s)\n int 1\n.continue .if edx == 1\n int 2\n.endfor" % st, 3, 3),
        (".for (::%s)\n int 1\n.break .if edx == 2\n inc edx\n.endfor" % st, 2, 3),
    ]
    L = [PRE[mode], "v_ dd 0,0"] + [" dd offset p%d" % k for k in range(len(progs))]
    for k, q in enumerate(progs):
        L.append("p%d:\n%s\n hlt" % (k, q[0]))
    L.append(POST)
    r = ctx.srv().asm("\n".join(L), ("-q", "-bin", "-nomlib"))
    kk = ("for:%d:%s:%d" % (mode, st, sp)).replace(" ", "")
    if r.exit or r.sig or not r.obj():
        return V(kk, "not accepted: " + r.text()[-300:], source="\n".join(L))
    img = r.obj()
    e = emu.Emu(mode, img, maxtrace=32)
    n = 8 * sz
    out = []
    for k, ((text, times, evs), ent) in enumerate(zip(progs, struct.unpack_from("<%dI" % len(progs), img, 8))):
        for a0 in (0, 5, (1 << (n - 1)) - 1, (1 << n) - 1):
            e.reset_image()
            regs = {2: 0, 1: 0x1d, 7: 0x1d}
            big = 0x7171717171717171 >> n << n if n < 64 else 0
            if mode == 32:
                big &= 0xffffffff
            if ri is not None:
                regs[ri] = a0 | big
            else:
                e.img[0:8] = (a0 | 0x7777777700000000).to_bytes(8, "little")
            s0 = e.run(ent, (), regs)
            ctx.n["runs"] += 1
            want = a0
            for q in range(times):
                want = fref(op, want, num(v), n)
            if ri is not None:
                got = e.c.r[ri]
                full = want if sz == 4 and mode == 64 else want | big
                if sz == 4 and mode == 64 and got >> 32 and full == got & 0xffffffff:
                    got &= 0xffffffff     # never written: the upper half is still there
            else:
                got = int.from_bytes(e.img[0:8], "little")
                full = want | 0x7777777700000000
            tr = [x for x in e.trace() if x == 1]
            if s0 != emu.HALT or got != full or len(tr) != evs:
                out.append(V(kk, "form %d, start %xh: %s, %d rounds, value %xh; expected %d rounds, %xh" % (k, a0, emu.NAME[s0], len(tr), got, evs, full), source=text))
                break
    if not out:
        ctx.outcome("for", mode, op, sz)
    return out


ck.explore("conditions", gen_b1, judge)
ck.explore("nests", gen_b2, judge)
ck.explore("comparisons", gen_a, judge_a)
ck.explore("flags", gen_fl, judge_fl)
ck.explore("counters", gen_d, judge_d)
ck.explore("switch", gen_sw, jswitch)
ck.assume += ["an interpreter of the instructions the directives generate (harness/xemu.c) stands for the processor; unknown instructions are errors",
              "floating point comparisons with NaN operands are not judged",
              "in assembler-style .SWITCH a .CASE directly behind a .CASE shares its code",
              "negative constants in .FOR assignments to memory are not accepted by this version and not judged; *= /= %= of .FOR are not judged"]
ck.finish("condition trees to %d leaves in every directive that has a condition, each run for every outcome of every condition it reads; all nests of up to %d "
          "directives (.IF with .ELSEIF/.ELSE, .WHILE, .FOR, .REPEAT, .UNTILCXZ, .SWITCH, .BREAK/.CONTINUE with and without .IF) likewise; every comparison "
          "operator x operand kind x size x signedness over all boundary value pairs; .FOR counters; every kind of .SWITCH table around its limits with "
          "every case value and its neighbours" % (5 if T else 4, 4 if T else 3),
          states=ck.n["runs"], transitions=ck.n["steps"], validated=ck.n["runs"])

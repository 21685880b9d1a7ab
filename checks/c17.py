"""C17 the location counter: all sequences of segment openings (nested, re-opened), closings (also of the wrong segment), data,
instructions, ORG (constant, $-relative, label-relative), ALIGN and EVEN up to a depth, in every segment word size and object format,
against a reference model of the segment stack and one location counter per segment.  The object file is read back with readers
written from the format specifications: every byte, every public label and every segment's alignment is compared."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
import objfmt, isa

ck = Check("C17")
T = ck.thorough
READ = {"-elf": objfmt.elf, "-elf64": objfmt.elf, "-coff": objfmt.coff, "-win64": objfmt.coff, "-omf": objfmt.omf}
ALIGN = {"byte": 1, "word": 2, "dword": 4, "para": 16, "page": 256, "align(32)": 32}


class Bad(Exception):
    pass


class Seg:
    def __init__(self, code):
        self.code = code
        self.loc = 0
        self.mem = {}           # offset -> byte, or ("pad", n, k): byte k of n bytes of alignment padding
        self.low = self.high = 0  # least and greatest acceptable size
        self.since = False      # something was emitted since the last ORG or reservation


class Model:
    def __init__(self, kinds):
        self.seg = {n: Seg(c) for n, c in kinds.items()}
        self.stack = []
        self.labels = {}
        self.used = set()
        self.jump = None        # a jump to the end of its segment, too far for the short form

    @property
    def cur(self):
        if not self.stack:
            raise Bad("no segment")
        return self.seg[self.stack[-1]]

    def put(self, bs):
        s = self.cur
        for x in bs:
            s.mem[s.loc] = x
            s.loc += 1
        s.since = True
        s.low = max(s.low, s.loc)
        s.high = max(s.high, s.loc)

    def step(self, op, k, use="use32"):
        o = op[0]
        if o == "open":
            if op[1] in self.stack:
                raise Skip
            self.stack.append(op[1])
            self.used.add(op[1])
        elif o == "close":
            if not self.stack or self.stack[-1] != op[1]:
                raise Bad("nesting")
            self.stack.pop()
        elif o == "db":
            self.put(bytes((0x40 + k, 0x41 + k, 0x42 + k)[:op[1]]))
        elif o == "ins":
            self.put(b"\xf4")
        elif o == "res":
            s = self.cur
            for i in range(op[1]):
                s.mem[s.loc + i] = ("any",) if s.loc + i in s.mem else 0      # what is reserved over earlier bytes has no defined value
            s.loc += op[1]
            s.since = False
            s.low = max(s.low, s.loc)
            s.high = max(s.high, s.loc)
        elif o == "align":
            s = self.cur
            n = -s.loc % op[1]
            for i in range(n):
                # padding behind an ORG reserves space only: over earlier bytes it has no defined value
                s.mem[s.loc + i] = ("pad", n, i) if s.since else ("any",) if s.loc + i in s.mem else 0
            s.loc += n
            s.high = max(s.high, s.loc)
            s.low = max(s.low, s.loc)
        elif o == "org":
            s = self.cur
            x = op[1]
            if isinstance(x, int):
                n = x
            elif x[0] == "$":
                n = s.loc + x[1]
            else:
                if x[0] not in self.labels or self.labels[x[0]][0] != self.stack[-1]:
                    raise Skip
                n = self.labels[x[0]][1] + x[1]
            if n < 0:
                raise Skip
            s.loc = n
            s.since = False
            s.high = max(s.high, n)
        elif o == "jmp":
            if self.jump:
                raise Skip
            n = 3 if use == "use16" else 5
            self.jump = (self.stack[-1], self.cur.loc, n)
            self.put(b"\xe9" + bytes(n - 1))
        if o not in ("close",) and self.stack:
            self.labels["l%d" % k] = (self.stack[-1], self.cur.loc)


class Skip(Exception):
    """outside what is judged"""


def txt(op, k, u, attr, use):
    o = op[0]
    if o == "open":
        n = op[1] + u
        return " %s segment %s %s public '%s'" % (n, attr[op[1]], use, "CODE" if op[1] == "A" else "DATA")
    if o == "close":
        return " %s%s ends" % (op[1], u)
    if o == "db":
        return " db %s" % ",".join(["%d" % (0x40 + k + i) for i in range(op[1])])
    if o == "ins":
        return " hlt"
    if o == "res":
        return " db %d dup (?)" % op[1]
    if o == "align":
        return " even" if op[1:] == (2, "e") else " align %d" % op[1]
    if o == "org":
        x = op[1]
        if isinstance(x, int):
            return " org %d" % x
        return " org %s%+d" % (x[0] if x[0] == "$" else x[0] + u, x[1])
    if o == "jmp":
        return " jmp j" + u


def nops(mode, bs):
    """is this byte string a sequence of instructions without effect? (decoded by objdump, judged on the text)"""
    r = NOPS.get((mode, bs))
    if r is None:
        r = NOPS[mode, bs] = isnops(mode, bs)
    return r


NOPS = {}


def isnops(mode, bs):
    import subprocess, tempfile, re
    d = scratch_dir()
    p = "%s/np%d" % (d, os.getpid())
    open(p, "wb").write(bs)
    out = subprocess.run(["objdump", "-D", "-b", "binary", "-m", isa.ARCH[mode], "-M", "intel", "-w", "--no-show-raw-insn", p], stdout=subprocess.PIPE).stdout.decode()
    os.unlink(p)
    ok, end = False, 0
    for m in re.finditer(r"^ *([0-9a-f]+):\t(.*)$", out, re.M):
        t = m[2].strip()
        t = re.sub(r"^(cs|ds|es|ss|data16) ", "", t).strip()
        t = re.sub(r"\s+", " ", t)
        ok = True
        if re.match(r"(nop|xchg ax,ax|nop .*)$", t):
            continue
        m2 = re.match(r"(mov|xchg) (\w+),(\w+)$", t)
        if m2 and m2[2] == m2[3] and not (mode == 64 and m2[2][0] == "e"):
            continue
        m2 = re.match(r"lea (\w+),(?:cs:|ds:|ss:)?\[(\w+)(?:\+(?:eiz|riz)\*1)?(?:\+0x0)?\]$", t)
        if m2 and m2[1] == m2[2] and not (mode == 64 and m2[1][0] == "e"):
            continue
        return False
    return ok


def run(seq, i, kinds, attr, use):
    """-> (lines, model or None (an error is required)); raises Skip"""
    m = Model(kinds)
    l = []
    u = "_%d" % i
    try:
        for k, op in enumerate(seq):
            l.append(txt(op, k, u, attr, use))
            m.step(op, k, use)
            if m.stack and op[0] != "close":
                l.append("l%d%s label byte" % (k, u))
        while m.stack:
            l.append(" %s%s ends" % (m.stack.pop(), u))
        if m.jump:
            n, at, w = m.jump
            l += [txt(("open", n), 0, u, attr, use), " db 130 dup (9)", "j%s label near" % u, " hlt", " %s%s ends" % (n, u)]
            m.stack = [n]
            m.put(b"\x09" * 130)
            d = m.cur.loc - (at + w)
            if not 130 <= d:
                raise Skip          # an ORG moved the end to the front of the jump
            for i, x in enumerate(d.to_bytes(w - 1, "little")):
                if m.cur.mem.get(at + 1 + i) == 0:
                    m.cur.mem[at + 1 + i] = x
            m.put(b"\xf4")
            m.stack = []
        return l, m
    except Bad:
        return l, None


def head(cfg):
    bits, fmt = cfg
    return {16: " .8086\n", 32: " .386\n", 64: " .x64\n" if fmt not in ("-win64", "-elf64") else ""}[bits]


def compare(cfg, attr, obj, i, m):
    bits, fmt = cfg
    u = "_%d" % i
    syms = {s.name: s for s in obj.syms}
    for n, s in m.seg.items():
        if n not in m.used:
            continue
        sec = obj.sec(n + u)
        if sec is None:
            return "segment %s is missing" % (n + u)
        if sec.align != ALIGN[attr[n]] and not (bits == 16 and False):
            return "segment %s has alignment %d, declared %s" % (n + u, sec.align, attr[n])
        if not (s.low <= sec.size <= max(s.high, s.low)):
            return "segment %s has size %d, not %d..%d" % (n + u, sec.size, s.low, s.high)
        got = {}
        data = sec.data if not sec.nobits else bytes(sec.size)
        for a in range(sec.size):
            g = data[a]
            w = s.mem.get(a, 0)
            if isinstance(w, tuple):
                continue
            if w != g:
                return "segment %s offset %d is %02x, not %02x" % (n + u, a, g, w)
        # padding: zero in data; no operation (or untouched) in code
        a = 0
        while a < sec.size:
            w = s.mem.get(a)
            if isinstance(w, tuple) and w[0] == "pad":
                if w[2] == 0 and all(s.mem.get(a + j) == ("pad", w[1], j) for j in range(w[1])):
                    b = bytes(data[a:a + w[1]])
                    if b != bytes(w[1]) and not (s.code and nops(bits, b)):
                        return "alignment padding %s in segment %s is %s" % (b.hex(), n + u, "not a sequence of no-operations" if s.code else "not zero")
                    if s.code and b == bytes(w[1]) and all_before(s, a):
                        return "alignment padding in code segment %s is zeros, which execute" % (n + u)
                    a += w[1]
                    continue
            a += 1
    for k, (n, off) in m.labels.items():
        y = syms.get(k + u)
        if y is None:
            return "public label %s is missing" % (k + u)
        if not isinstance(y.sec, objfmt.Sec) or y.sec.name != n + u or y.value != off:
            return "label %s is at %s:%#x, not %s:%#x" % (k + u, y.sec, y.value, n + u, off)
    return None


def all_before(s, a):
    """the byte in front of the padding is an instruction or data that was emitted: execution can arrive at the padding"""
    return a > 0 and isinstance(s.mem.get(a - 1), int) and s.mem.get(a - 1) == 0xf4


def name(seq):
    return " ".join("%s%s" % (o[0], "" if len(o) < 2 else ":" + str(o[1])) for o in seq)


def judge(ctx, case):
    tag, cfg, attr, use, group = case
    bits, fmt = cfg
    kinds = {"A": True, "B": False}
    good, bad = [], []
    for i, seq in enumerate(group):
        try:
            l, m = run(seq, i, kinds, attr, use)
        except Skip:
            continue
        (good if m else bad).append((i, seq, l, m))
    out = []

    def go(part):
        if not part:
            return
        pub = [k + "_%d" % i for i, _, _, m in part for k in m.labels]
        src = head(cfg) + "".join(" public %s\n" % x for x in pub) + "\n".join(x for _, _, l, _ in part for x in l) + "\nend\n"
        r = ctx.srv().asm(src, ["-q", fmt])
        if r.exit != 0 or not r.obj():
            if len(part) > 1:
                for h in (part[:len(part) // 2], part[len(part) // 2:]):
                    go(h)
                return
            i, seq, l, m = part[0]
            out.append(V("%s:%s:%s" % (tag, fmt, name(seq)), "rejected: %s" % (r.err() or [r.text()])[:1], source=src, opts=[fmt]))
            return
        try:
            obj = READ[fmt](r.obj())
        except objfmt.Bad as e:
            if len(part) > 1:
                for h in (part[:len(part) // 2], part[len(part) // 2:]):
                    go(h)
                return
            out.append(V("%s:%s:%s" % (tag, fmt, name(part[0][1])), "the object file is malformed: %s" % e, source=src, opts=[fmt]))
            return
        ctx.outcome(tag, "ok")
        for i, seq, l, m in part:
            w = compare(cfg, attr, obj, i, m)
            if w:
                if len(part) > 1:
                    go([(i, seq, l, m)])
                    if not out or name(seq) not in out[-1]["key"]:
                        out.append(V("%s:%s:%s" % (tag, fmt, name(seq)), w + " (only together with the other sequences of its file)", source=src, opts=[fmt]))
                else:
                    out.append(V("%s:%s:%s" % (tag, fmt, name(seq)), w, source=src, opts=[fmt]))
    go(good)
    for i, seq, l, m in bad:
        src = head(cfg) + "\n".join(l) + "\nend\n"
        r = ctx.srv().asm(src, ["-q", fmt])
        ctx.outcome(tag, "error")
        if r.exit in (0, None) or r.sig or "General Failure" in r.text():
            out.append(V("%s:%s:%s" % (tag, fmt, name(seq)), "mismatched nesting or statement outside a segment: exit status %s %s" % (r.exit, r.text()[:80]), source=src, opts=[fmt]))
    ctx.n["sequences"] += len(group)
    return out or None


OA, OB, CA, CB = ("open", "A"), ("open", "B"), ("close", "A"), ("close", "B")
D3, D1, I = ("db", 3), ("db", 1), ("ins",)
A2, A4, A8, A16, EV = ("align", 2), ("align", 4), ("align", 8), ("align", 16), ("align", 2, "e")


def ORG(x, d=None):
    return ("org", x if d is None else (x, d))


OPS = [OA, OB, CA, CB, D3, I, A4, A16, EV, ORG(5), ORG("$", 3), ORG("$", -2), ORG("l1", 1), ("res", 2), ]
DEEP = [OA, OB, CA, CB, D3, I, A4, ORG("$", 3)]
PADS = [D3, I, D1, A2, A4, A8, A16, EV, ORG(0), ORG(21), ORG("$", 1), ORG("l0", 2), ("res", 5), ("align", 1)]


def seqs(n, ops, start=()):
    """all sequences of length n whose proper prefixes are well formed and judged"""
    def go(pre):
        if len(pre) >= n:
            return
        for op in ops:
            s = pre + (op,)
            try:
                _, m = run(s, 0, {"A": True, "B": False}, {"A": "byte", "B": "byte"}, "")
            except Skip:
                continue
            if m is None or len(s) == n:
                yield s
            else:
                yield from go(s)
    yield from go(tuple(start))


CFG = [(32, "-elf"), (32, "-coff"), (32, "-omf"), (16, "-omf"), (64, "-elf64"), (64, "-win64")]
AT = {"A": "para", "B": "para"}


def g_nest():
    for cfg in CFG:
        deep = cfg in ((32, "-elf"), (32, "-omf"))
        for n in (1, 2, 3, 4, 5) + ((6,) if T else ()):
            if n == 4 and not T and cfg not in ((32, "-elf"), (16, "-omf")):
                continue
            if n == 5 and not (deep if T else cfg[1] == "-elf") or n == 6 and cfg != (32, "-elf"):
                continue
            for g in chunks(seqs(n, OPS), 40):
                yield "nest", cfg, AT, "use%d" % cfg[0], g
    for n in (5, 6, 7) if T else (5, 6):
        for g in chunks(seqs(n, DEEP), 40):
            yield "nest", (32, "-coff"), AT, "use32", g


def g_pads():
    """one segment: data, instructions, ORG and ALIGN in every order"""
    for cfg in CFG:
        for st in (OA, OB):
            for n in (2, 3, 4, 5) + ((6,) if T else ()):
                if n == 4 and not T and cfg not in ((32, "-elf"), (64, "-win64"), (16, "-omf")):
                    continue
                if n == 5 and cfg[1] not in ("-elf", "-win64") or n == 6 and cfg[1] != "-elf":
                    continue
                for g in chunks(seqs(n, PADS, (st,)), 40):
                    yield "pads", cfg, AT, "use%d" % cfg[0], g


JOPS = [OA, OB, CA, CB, D3, I, A4, A16, EV, ORG("$", 3), ("res", 2)]
JMP = ("jmp",)


def g_grow():
    """a jump that is found to be long only after everything behind it was placed: the offsets settle in later passes"""
    for cfg in CFG:
        for st in ((OA, JMP), (OA, D1, JMP), (OB, D3, OA, JMP), (OA, JMP, OB), (OB, JMP)):
            for n in (1, 2, 3, 4) if T else (1, 2, 3) if cfg[1] in ("-elf", "-omf", "-win64") else (1, 2):
                for g in chunks(seqs(len(st) + n, JOPS, st), 40):
                    yield "grow", cfg, AT, "use%d" % cfg[0], g


def g_amount():
    """every distance to the next multiple, for every alignment up to the segment's own"""
    for cfg in CFG:
        for at in ("align(32)", "page") if cfg[1] != "-omf" else ("page", "para"):
            if cfg[1] in ("-coff", "-win64") and at == "page":
                at = "align(32)"
            mx = ALIGN[at]
            for st in (OA, OB):
                L = []
                a = 1
                while a <= mx:
                    for k in range(0, min(2 * a, 70)):
                        L.append((st,) + (I,) * (k > 0) + ((ORG(k),) if k else ()) + (I, ("align", a), I))
                        L.append((st,) + (I,) * k + (("align", a), D1))
                    a *= 2
                for g in chunks(iter(L), 10):
                    yield "amount", cfg, {"A": at, "B": at}, "use%d" % cfg[0], g


def g_attr():
    """segment alignment attributes, with ALIGN at most and above them"""
    for cfg in CFG:
        for x, y in itertools.product([a for a in ALIGN if not (cfg[1] == "-omf" and a == "align(32)")], repeat=2):
            if x == "page" and cfg[1] in ("-coff", "-win64") or y == "page" and cfg[1] in ("-coff", "-win64"):
                pass
            L = []
            for a in (2, 4, 8, 16, 32, 64):
                for body in ((D1, ("align", a), D1), (("align", a), D3), (D1, CA, OB, D3, ("align", a), D1, CB, OA, ("align", a), I), (OB, D1, CB, I, ("align", a), I)):
                    L.append((OA,) + body)
            for g in chunks(iter(L), 12):
                yield "attr", cfg, {"A": x, "B": y}, "use%d" % cfg[0], g


# ---- simplified segment directives --------------------------------------------------
SIMP = {"C": ".code", "D": ".data", "U": ".data?", "K": ".const", "X": ".code xx_", "F": ".fardata"}
SN = {"-omf": {"C": "_TEXT", "D": "_DATA", "U": "_BSS", "K": "CONST", "X": "XX_", "F": "FAR_DATA"},
      "-elf": {"C": ".text", "D": ".data", "U": ".bss", "K": ".rodata", "X": "xx_"},
      "-coff": {"C": ".text", "D": ".data", "U": ".bss", "K": ".rdata", "X": "xx_"}}
SN["-elf64"], SN["-win64"] = SN["-elf"], SN["-coff"]
SCFG = [(32, "-omf", ".386\n.model flat\n"), (32, "-elf", ".386\n.model flat\n"), (32, "-coff", ".386\n.model flat\n"), (16, "-omf", ".286\n.model small\n"),
        (64, "-win64", ""), (64, "-elf64", "")]


def g_simp():
    for cfg in SCFG:
        sw = [("seg", k) for k in SN[cfg[1]] if not (k == "F" and cfg[0] != 16)]
        ops = sw + [D3, I, A4, EV, ORG("$", 3), ("res", 2)]
        for n in (2, 3, 4) + ((5, 6) if T else (5,) if cfg[1] == "-omf" else ()):
            for t in itertools.product(ops, repeat=n - 1):
                for s0 in sw:
                    s = (s0,) + t
                    if n >= 4 and sum(o[0] == "seg" for o in s) < (2 if n == 4 else 3):
                        continue
                    if n == 6 and sum(o[0] == "seg" for o in s) < 4:
                        continue
                    if any(s[i][0] == s[i + 1][0] == "seg" for i in range(n - 1)) or s[-1][0] == "seg":
                        continue
                    cur, ok = None, True
                    for o in s:
                        if o[0] == "seg":
                            cur = o[1]
                        elif cur == "U" and o[0] in ("db", "ins") or o[0] == "ins" and cur not in "CX":
                            ok = False
                    if ok:
                        yield cfg, s


def jsimp(ctx, case):
    (bits, fmt, hd), s = case
    m = Model({k: k in "CX" for k in SIMP})
    l = []
    for k, o in enumerate(s):
        if o[0] == "seg":
            l.append(SIMP[o[1]])
            m.stack = [o[1]]
            m.used.add(o[1])
        else:
            l.append(txt(o, k, "", {}, ""))
            m.step(o, k)
        l.append("l%d label byte" % k)
        m.labels["l%d" % k] = (m.stack[-1], m.cur.loc)
    src = hd + "".join(" public l%d\n" % k for k in range(len(s))) + "\n".join(l) + "\nend\n"
    key = "simp:%s%d:%s" % (fmt, bits, name(s))
    r = ctx.srv().asm(src, ["-q", fmt])
    if r.exit != 0 or not r.obj():
        return V(key, "rejected: %s" % (r.err() or [r.text()])[:1], source=src, opts=[fmt])
    try:
        obj = READ[fmt](r.obj())
    except objfmt.Bad as e:
        return V(key, "the object file is malformed: %s" % e, source=src, opts=[fmt])
    ctx.outcome("simp", fmt)
    syms = {y.name: y for y in obj.syms}
    for lb, (n, off) in m.labels.items():
        y = syms.get(lb)
        if y is None or not isinstance(y.sec, objfmt.Sec) or y.sec.name != SN[fmt][n] or y.value != off:
            return V(key, "label %s is at %s:%s, not %s:%#x" % (lb, y and y.sec, y and y.value, SN[fmt][n], off), source=src, opts=[fmt])
    for n in m.used:
        sec, g = obj.sec(SN[fmt][n]), m.seg[n]
        data = sec.data or bytes(sec.size)
        if not g.low <= sec.size <= max(g.low, g.high):
            return V(key, "segment %s has size %d, not %d..%d" % (sec.name, sec.size, g.low, g.high), source=src, opts=[fmt])
        for a in range(sec.size):
            w = g.mem.get(a, 0)
            if not isinstance(w, tuple) and w != data[a]:
                return V(key, "segment %s offset %d is %02x, not %02x" % (sec.name, a, data[a], w), source=src, opts=[fmt])


ck.explore("simplified segment directives", g_simp, jsimp)
ck.explore("segment nesting, re-opening, data, ORG and ALIGN sequences", g_nest, judge)
ck.explore("sequences inside one segment", g_pads, judge)
ck.explore("sequences behind a jump that grows", g_grow, judge)
ck.explore("padding amounts", g_amount, judge)
ck.explore("segment alignment attributes", g_attr, judge)
ck.finish("every byte, label offset, segment size and alignment in the object file is the reference model's; mismatched nesting is an error")

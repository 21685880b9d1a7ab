"""C07 structures, unions, records: every declaration over a member alphabet is
assembled with its instances; sizes, offsets and bytes compared with a
reference layout."""
import itertools, os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

ck = Check("C07")
PRIM = {"BYTE": 1, "SBYTE": 1, "WORD": 2, "DWORD": 4, "QWORD": 8, "FWORD": 6, "TBYTE": 10, "OWORD": 16, "REAL4": 4,
        "db": 1, "dw": 2, "dd": 4, "dq": 8, "TD": 4, "TW": 2}
PRE0 = {16: '.386\nd segment use16\n', 32: '.386\n.model flat\n.data\n', 64: '.x64\nd segment use64\n'}
POST = {16: "d ends\nend\n", 32: "end\n", 64: "d ends\nend\n"}


def al(o, n):
    return o + -o % n


class Bad(Exception):
    pass


class Skip(Exception):
    pass


# ---- types -----------------------------------------------------------------
# member: ("p", type, [values], string?)   values None='?'
#         ("t", struct name, count or None)
#         ("s", kind, members)             embedded; named when its index name is asked for
#         ("al", n)
class Field:
    __slots__ = ("name", "off", "size", "n", "mem", "ty", "el")


class Type:
    """layout of a struct or union"""

    def __init__(self, kind, align, members, names):
        self.kind, self.align = kind, align
        self.fields = []
        off = size = mx = 0
        for m, nm in zip(members, names):
            if m[0] == "al":
                if kind == "STRUCT":
                    off = al(off, m[1])
                    size = max(size, off)
                continue
            f = Field()
            f.name, f.mem = nm, m
            if m[0] == "p":
                f.el, f.n = PRIM[m[1]], len(m[2])
                f.ty = None
                a = f.el
            elif m[0] == "t":
                f.ty = NAMED[m[1]]
                f.el, f.n = f.ty.size, m[2] or 1
                a = f.ty.mx
            elif m[0] == "r":
                f.ty = None
                f.el, f.n = RECS[m[1]].size, 1
                a = f.el
            else:
                f.ty = Type(m[1], align, m[2], [x and nm + x for x in sub(len(m[2]))])
                f.el, f.n = f.ty.size, 1
                a = f.ty.mx
            f.size = f.el * f.n
            if align > 1 and a:
                if a & (a - 1) and a < align:
                    raise Skip              # FWORD, TBYTE: no documented boundary
                o = al(off, min(align, a))
            else:
                o = off
            mx = max(mx, a)
            if kind == "STRUCT":
                f.off = o
                off = o + f.size
                size = max(size, off)
            else:
                f.off = 0
                size = max(size, f.size)
            self.fields.append(f)
        if align > 1:
            e = min(mx or 1, align)
            if e & (e - 1):
                raise Skip
            size = al(size, e)
        self.size, self.mx = size, mx

    def image(self, init=()):
        """init: one entry per field: None=default, else explicit ('v', ...)"""
        b = bytearray(self.size)
        for k, f in enumerate(self.fields):
            if self.kind == "UNION" and k:
                break
            x = init[k] if k < len(init) else None
            b[f.off:f.off + f.size] = self.field(f, x)
        return bytes(b)

    def field(self, f, x):
        m = f.mem
        if m[0] == "p":
            vals = m[2]
            if x is not None:
                fill = 0
                if m[3]:
                    fill = 32
                vals = list(x[1]) + [fill] * (f.n - len(x[1]))
            return b"".join(((v or 0) % (1 << 8 * f.el)).to_bytes(f.el, "little") for v in vals)
        if m[0] == "r":
            return RECS[m[1]].image(x[1] if x else ())
        if m[0] == "t":
            if m[2]:
                el = [f.ty.image(y) for y in (x[1] if x else [()] * m[2])]
                el += [bytes(f.ty.size)] * (m[2] - len(el))
                return b"".join(el)
            return f.ty.image(x[1] if x else ())
        return f.ty.image(x[1] if x else ())


class Rec:
    def __init__(self, fields):          # (name, width, default or None)
        self.fields = fields
        self.bits = sum(w for n, w, d in fields)
        if not 0 < self.bits <= 128:
            raise Bad
        self.size = 1 if self.bits <= 8 else 2 if self.bits <= 16 else 4 if self.bits <= 32 else 8 if self.bits <= 64 else 16
        p = self.bits
        self.pos = []
        for n, w, d in fields:
            p -= w
            self.pos.append(p)

    def image(self, init=()):
        v = 0
        for k, (n, w, d) in enumerate(self.fields):
            x = init[k] if k < len(init) and init[k] is not None else d or 0
            if not 0 <= x < 1 << w:
                raise Bad
            v |= x << self.pos[k]
        return v.to_bytes(self.size, "little")


def sub(n):
    return ["xyzw"[i] for i in range(n)]


RECS = {}
NAMED = {}
DEF = []


def num(v):
    return "?" if v is None else str(v) if v < 10 else "0%Xh" % v


def mtext(m, nm, ind=" "):
    if m[0] == "al":
        return ["%sALIGN %d" % (ind, m[1])] if m[1] != 2 else [ind + "EVEN"]
    if m[0] == "p":
        v = m[2]
        if m[3]:
            t = "'%s'" % bytes(v).decode()
        elif len(v) > 1 and len(set(v)) == 1:
            t = "%d DUP (%s)" % (len(v), num(v[0]))
        else:
            t = ",".join(num(x) for x in v)
        return ["%s%s %s %s" % (ind, nm or "", m[1], t)]
    if m[0] == "r":
        return ["%s%s %s <>" % (ind, nm or "", m[1])]
    if m[0] == "t":
        return ["%s%s %s %s" % (ind, nm or "", m[1], "%d DUP (<>)" % m[2] if m[2] else "<>")]
    r = ["%s%s %s" % (ind, m[1], nm if nm and not m[3] else "")]
    for x, c in zip(m[2], sub(len(m[2]))):
        r += mtext(x, nm + c, ind + " ")
    return r + [ind + "ENDS"]


def named(name, kind, align, members):
    names = ["%s%s" % (name, x) for x in sub(len(members))]
    NAMED[name] = Type(kind, align, members, names)
    DEF.append("%s %s %s" % (name, kind, align if align > 1 else ""))
    for m, n in zip(members, names):
        DEF.extend(mtext(m, n))
    DEF.append(name + " ENDS")


def rec(name, fields):
    RECS[name] = Rec(fields)
    DEF.append("%s RECORD %s" % (name, ",".join("%s:%d%s" % (n, w, "" if d is None else "=%s" % num(d)) for n, w, d in fields)))


def p(t, *v):
    return ("p", t, v, False)


def st(s):
    return ("p", "BYTE", tuple(s.encode()), True)


DEF += ["TD TYPEDEF DWORD", "TW TYPEDEF WORD"]
rec("RC8", [("ra", 3, 5), ("rb", 4, None)])
rec("RC16", [("rc", 9, None), ("rd", 1, 1)])
named("T1", "STRUCT", 1, [p("BYTE", 0x21), p("WORD", 0x2322)])
named("T4", "STRUCT", 4, [p("BYTE", 0x31), p("DWORD", 0x35343332), p("BYTE", 0x36)])
named("T8", "STRUCT", 8, [p("WORD", 0x41), p("QWORD", 0x42)])
named("U4", "UNION", 4, [p("WORD", 0x5150), p("DWORD", 7), p("BYTE", 1, 2, 3)])
named("TN", "STRUCT", 4, [p("BYTE", 0x61), ("t", "T4", None), ("t", "U4", None)])
NAMEDPRE = "\n".join(DEF) + "\n"

S = "STRUCT"
U = "UNION"
ALPHA = [
    p("BYTE", 0x11), p("WORD", 0x1312), p("DWORD", 0x17161514), p("QWORD", 0x1f1e1d1c1b1a1918), p("TD", 0x0a0b0c0d),
    p("BYTE", 7, 7, 7), p("WORD", 1, 2), st("abc"), p("DWORD", None), p("OWORD", 0x99),
    ("t", "T1", None), ("t", "T4", None), ("t", "U4", None), ("t", "T1", 2), ("r", "RC8"), ("r", "RC16"),
    ("s", U, (p("BYTE", 0x71), p("DWORD", 0x75747372)), False), ("s", S, (p("BYTE", 0x81), p("WORD", 0x8382)), False),
    ("s", U, (p("DWORD", 0x79787776), p("BYTE", 1)), True), ("s", S, (p("WORD", 0x8584), p("BYTE", 0x86)), True),
    ("al", 4), ("al", 2), ("al", 8),
]
SMALL = [ALPHA[i] for i in (0, 1, 2, 5, 7, 11, 12, 16, 18, 19, 20)]
DEEP = [  # nests three deep
    ("s", S, (p("BYTE", 0x91), ("s", U, (p("WORD", 0x9392), p("QWORD", 5)), False), p("BYTE", 0x94)), False),
    ("s", U, (("s", S, (p("BYTE", 0x95), p("DWORD", 0x96)), True), p("QWORD", 1)), True),
    ("s", S, (p("BYTE", 0x97), ("s", S, (p("WORD", 0x98), ("s", U, (p("BYTE", 0x99), p("TW", 4)), True)), True)), False),
    ("t", "TN", None), ("t", "T8", None), ("t", "TN", 2), p("FWORD", 0x123456789abc), p("TBYTE", 0x11), p("REAL4", None),
]


# ---- initialisers -----------------------------------------------------------
def explicit(f, salt):
    """-> (text, value) for one explicit initialiser of field f; several kinds"""
    m = f.mem
    if m[0] == "p":
        v = 0xc0 + salt
        if m[1] in ("REAL4",):
            return
        if f.n == 1:
            yield "0%Xh" % v, ("v", [v])
            yield "?", ("v", [0])
        else:
            yield "<%s>" % ",".join("0%Xh" % (v + i) for i in range(f.n)), ("v", [v + i for i in range(f.n)])
            yield "{0%Xh}" % v, ("v", [v])
            yield "%d DUP (0%Xh)" % (f.n, v), ("v", [v] * f.n)
            if f.el == 1:
                yield "'zy'", ("v", b"zy")
    elif m[0] == "r":
        yield "<1>", ("v", [1])
        yield "<,0>", ("v", [None, 0])
        yield "<>", ("v", [])
    elif m[0] == "t" and m[2]:
        t = [list(x) for x in inits(f.ty, 2, salt + 3, True)]
        yield "<%s>" % ",".join("<%s>" % x[0] for x in t[:2]), ("v", [t[0][1], t[1][1]])
        yield "%d DUP (<%s>)" % (m[2], t[-1][0]), ("v", [t[-1][1]] * m[2])
    else:
        for t, v in inits(f.ty, 2, salt + 3, True):
            yield "<%s>" % t, ("v", v)


def inits(ty, depth, salt, short=False):
    """initialiser lists for a type: every subset of the fields explicit (first
    explicit form), and each other form of one field alone"""
    fs = ty.fields[:1] if ty.kind == U else ty.fields
    forms = [list(explicit(f, salt + 8 * k)) if depth else [] for k, f in enumerate(fs)]
    yield "", []
    n = len(fs)
    for mask in range(1, 1 << n):
        if short and bin(mask).count("1") > 1 and mask != (1 << n) - 1:
            continue
        t, v = [], []
        for k in range(n):
            if mask >> k & 1 and forms[k]:
                t.append(forms[k][0][0])
                v.append(forms[k][0][1])
            else:
                t.append("")
                v.append(None)
        while t and not t[-1]:
            t.pop()
            v.pop()
        yield ",".join(t), v
    for k in range(n):
        for txt, val in forms[k][1:]:
            yield "," * k + txt, [None] * k + [val]


def paths(ty, pre, base):
    """(path, offset) of every leaf, through named and anonymous members"""
    for f in ty.fields:
        anon = f.mem[0] == "s" and f.mem[3]
        if not anon:
            yield pre + "." + f.name, base + f.off, f
        if f.ty is not None and not (f.mem[0] == "t" and f.mem[2]):
            yield from paths(f.ty, pre if anon else pre + "." + f.name, base + f.off)


def build1(k, kind, align, members):
    nm = ["m" + x for x in sub(len(members))]
    ty = Type(kind, align, members, nm)
    if not ty.size:
        raise Skip
    s = "k%d" % (100 + k)
    t = ["%s %s %s" % (s, kind, align if align > 1 else "")]
    for m, n in zip(members, nm):
        t += mtext(m, n)
    t.append(s + " ENDS")
    b = struct.pack("<II", ty.size, ty.size)
    t.append(" dd SIZEOF %s, TYPE %s" % (s, s))
    for path, off, f in paths(ty, s, 0):
        t.append(" dd %s, SIZEOF %s, TYPE %s, LENGTHOF %s" % (path, path, path, path))
        b += struct.pack("<IIII", off, f.size, f.el, f.n)
    ini = list(inits(ty, 3, 0))
    for x, v in ini:
        br = "<%s>" if len(x) % 3 else "{%s}"
        t.append(" %s %s" % (s, br % x))
        b += ty.image(v)
    x, v = ini[-1]
    t.append("l%d %s 2 DUP (<%s>)" % (k, s, x))
    b += ty.image(v) * 2
    t.append(" dd LENGTHOF l%d, SIZEOF l%d, TYPE l%d" % (k, k, k))
    b += struct.pack("<III", 2, 2 * ty.size, ty.size)
    # too many initialisers is an error: separate statements check that
    return "\n".join(t), b


def judge(ctx, case):
    tag, bits, zp, items = case
    sts, rf = [], []
    for k, (kind, align, members) in enumerate(items):
        try:
            t, b = build1(k, kind, align, members)
        except Skip:
            ctx.n["not judged"] += 1
            continue
        sts.append(t)
        rf.append(b)
    opts = ["-bin", "-nomlib"]
    return batch_judge(ctx, "%s%d" % (tag, bits), PRE0[bits] + NAMEDPRE, sts, rf, " db 0EEh\n" + POST[bits], opts,
                       image=lambda r: (r.obj() or b"\xee")[:-1])


def g_lists():
    al_ = (1, 2, 4, 8, 16)
    def it():
        for n in (1, 2, 3):
            for ms in itertools.product(ALPHA, repeat=n):
                for a in al_:
                    for kind in (S, U):
                        yield kind, a, ms
        for a in (1, 2, 4, 8, 16, 32):
            for x in DEEP:
                for y in DEEP + ALPHA:
                    for kind in (S, U):
                        yield kind, a, (y, x)
                        yield kind, a, (x, y)
    for c in chunks(it(), 40):
        yield "lay", 32, 0, c


def g_modes():
    def it():
        for n in (1, 2):
            for ms in itertools.product(ALPHA, repeat=n):
                for a in (1, 4, 8):
                    yield S, a, ms
    for bits in (16, 64):
        for c in chunks(it(), 40):
            yield "lay", bits, 0, c


def g_four():
    def it():
        for ms in itertools.product(ALPHA if ck.thorough else SMALL, repeat=4):
            yield S, 4, ms
            if ck.thorough:
                yield U, 4, ms
    for c in chunks(it(), 40):
        yield "lay", 32, 0, c



# ---- records ---------------------------------------------------------------
def recstmt(k, fields, ini):
    n = "k%d" % (100 + k)
    r = Rec(fields)
    t = ["%s RECORD %s" % (n, ",".join("%s%s:%d%s" % (n, f, w, "" if d is None else "=%s" % num(d)) for f, w, d in fields))]
    b = struct.pack("<II", r.size, r.bits)
    t.append(" dd SIZEOF %s, WIDTH %s" % (n, n))
    for j, (f, w, d) in enumerate(fields):
        t.append(" dd %s%s, WIDTH %s%s" % (n, f, n, f))
        b += struct.pack("<II", r.pos[j], w)
        if r.pos[j] + w <= 64:
            t.append(" dq MASK %s%s" % (n, f))
            b += struct.pack("<Q", ((1 << w) - 1) << r.pos[j])
    if r.bits <= 64:
        t.append(" dq MASK %s" % n)
        b += struct.pack("<Q", (1 << r.bits) - 1)
    for v in ini:
        x = ["" if y is None else num(y) for y in v]
        while x and not x[-1]:
            x.pop()
        t.append(" %s <%s>" % (n, ",".join(x)))
        try:
            im = r.image(v)
        except Bad:
            return "\n".join(t), None
        b += im
        if r.bits <= 32:
            t.append(" mov eax,%s <%s>" % (n, ",".join(x)))
            b += b"\xb8" + im.ljust(4, b"\0")
    return "\n".join(t), b


def jrec(ctx, case):
    tag, items = case
    sts, rf = [], []
    for k, (fields, ini) in enumerate(items):
        t, b = recstmt(k, fields, ini)
        sts.append(t)
        rf.append(b)
    return batch_judge(ctx, tag, PRE0[32], sts, rf, " db 0EEh\n" + POST[32], image=lambda r: (r.obj() or b"\xee")[:-1])


def g_rec():
    ws = (1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64)
    def it():
        for n in (1, 2, 3):
            for w in itertools.product(ws if n < 3 else (1, 4, 7, 8, 16, 31, 33, 60), repeat=n):
                if sum(w) > 128:
                    continue
                full = [(1 << x) - 1 for x in w]
                low = [1] * n
                for dm in range(1 << n):
                    fl = [("abc"[i], w[i], (full[i] & 0x5a5a5a5a5a5a5a5a | 1) if dm >> i & 1 else None) for i in range(n)]
                    ini = [[], full, low]
                    ini += [[full[i] if j == i else None for j in range(n)] for i in range(n)]
                    ini += [[1 << w[i] - 1 if j == i else 0 for j in range(n)] for i in range(n)]
                    yield fl, ini
                # one past the limit is an error, field by field
                fl = [("abc"[i], w[i], None) for i in range(n)]
                for i in range(n):
                    for bad in {1 << w[i], (1 << w[i]) + 1, 2 << w[i], 1 << 32, 1 << 33, 1 << 63, (1 << 64) - 1}:
                        if 1 << w[i] <= bad < (1 << 64) - (1 << w[i] - 1):   # beyond: the same as a negative number
                            yield fl, [[bad if j == i else None for j in range(n)]]
    for c in chunks(it(), 60):
        yield "rec", c


# ---- declarations that are errors, redefinition ------------------------------
ERR = []


def bad(*lines):
    ERR.append(("\n".join(lines), None))


def good(b, *lines):
    ERR.append(("\n".join(lines), b))


for a in (0, 3, 5, 6, 7, 9, 12, 24, 33, 128, 256, -1, 65537):
    bad("l1 STRUCT %d" % a, " a BYTE 1", "l1 ENDS")
for a in (1, 2, 4, 8, 16, 32):
    good(bytes([1] + [0] * (a - 1) + [2] + [0] * (a - 1)) if a < 16 else b"\1" + bytes(15) + b"\2" + bytes(15), "l1 STRUCT %d" % a, " a BYTE 1", " b OWORD 2", "l1 ENDS", " l1 <>") if a >= 16 else None
for k in ("STRUCT", "UNION"):
    bad("l1 " + k, " a BYTE 1", " a BYTE 2", "l1 ENDS")
    bad("l1 " + k, " a BYTE 1", " UNION", "  b BYTE 1", "  a WORD 1", " ENDS", "l1 ENDS")
    bad("l1 " + k, " UNION", "  STRUCT", "   a BYTE 1", "  ENDS", " ENDS", " a BYTE 1", "l1 ENDS")
    bad("l1 " + k, " a BYTE 1", "l2 ENDS")
    bad("l1 " + k, " a BYTE 1", " STRUCT q", "  b BYTE 1", "l1 ENDS")
    bad("l1 " + k, " a l9 <>", "l1 ENDS")
    bad("l1 " + k, " a BYTE 1", "l1 ENDS", "l1 " + k, " b BYTE 1", "l1 ENDS")
    bad("l1 " + k, " a BYTE 1", "l1 ENDS", "l1 " + k, " a WORD 1", "l1 ENDS")
    bad("l1 " + k, " a BYTE 1", "l1 ENDS", "l1 " + k, " a BYTE 1", " b BYTE 1", "l1 ENDS")
    bad("l1 " + k, " a BYTE 1", " b BYTE 1", "l1 ENDS", "l1 " + k, " a BYTE 1", "l1 ENDS")
    good(b"\1", "l1 " + k, " a BYTE 1", "l1 ENDS", "l1 " + k, " a BYTE 1", "l1 ENDS", " l1 <>")
    bad("l1 " + k, " a BYTE 1", "l1 ENDS", " l1 1")
    bad("l1 " + k, " a BYTE 1", "l1 ENDS", " l1 <1,2>")
    bad("l1 " + k, " a BYTE 1", "l1 ENDS", " l1 <100h>")
    bad("l1 " + k, " a BYTE 1", "l1 ENDS", " l1 <'ab'>")
    bad("l1 " + k, " a BYTE 1,2", "l1 ENDS", " l1 <<1,2,3>>")
    bad("l1 " + k, " a BYTE 'abc'", "l1 ENDS", " l1 <'abcd'>")
    bad("l1 " + k, " a WORD 1,2", "l1 ENDS", " l1 <3 DUP (1)>")
    bad("l1 " + k, " a WORD 1,2", "l1 ENDS", " l1 <5>")
    bad("l1 " + k, " a T1 <>", "l1 ENDS", " l1 <1>")
    bad("l1 " + k, " a T1 <>", "l1 ENDS", " l1 <<1,2,3>>")
    bad("l1 " + k, " a RC8 <>", "l1 ENDS", " l1 <<8>>")
    bad("l1 " + k, " a RC8 <>", "l1 ENDS", " l1 <<1,16>>")
    bad("l1 " + k, " a BYTE 1", "l1 ENDS", " dd l1.b")
    bad("l1 " + k, " a BYTE 1", "l1 ENDS", "l1 BYTE 1")
    bad("l1 BYTE 1", "l1 " + k, " a BYTE 1", "l1 ENDS")
bad("l1 UNION", " a BYTE 1", " ORG 4", "l1 ENDS")
bad("l1 RECORD a:0")
bad("l1 RECORD a:1,")
bad("l1 RECORD a")
bad("l1 RECORD a:64,b:65")
bad("l1 RECORD a:129")
bad("l1 RECORD a:1,a:2")
bad("l1 RECORD la:3", " l1 <8>")
bad("l1 RECORD la:3", " l1 <1,1>")
bad("l1 RECORD la:3", " l1 1")
bad("l1 RECORD la:3", "l1 RECORD la:4")
bad("l1 RECORD la:3,lb:1", "l1 RECORD lb:1,la:3")
good(b"\5", "l1 RECORD la:3=5", "l1 RECORD la:3=5", " l1 <>")
good(struct.pack("<II", 4, 5), "l1 STRUCT", " a BYTE 1", " ORG 4", " b BYTE 2", "l1 ENDS", " dd l1.b, SIZEOF l1")
good(struct.pack("<IIII", 0, 2, 1, 4), "l1 STRUCT", " a DWORD 1", " ORG 2", " b BYTE 2", "l1 ENDS", " dd l1.a, l1.b, SIZEOF l1.b, SIZEOF l1")
good(bytes.fromhex("00"*4+"b802002200"+"c6430305"), "l1 RECORD la:4,lb:17=12345h", " dd 0", " mov eax,220002h", "xl1 EQU 3",
     " mov byte ptr [ebx+xl1],l1 <0,5>")
good(bytes.fromhex("b802002200"), "l1 RECORD la:8,lb:17", " mov eax,l1 {11h,2}")
bad("l1 RECORD la:8,lb:17", " mov eax,l1 5")
# type chains
for bits, n in ((16, 2), (32, 4), (64, 8)):
    pass
T = {"BYTE": 1, "WORD": 2, "DWORD": 4, "FWORD": 6, "QWORD": 8, "TBYTE": 10, "REAL4": 4, "REAL8": 8, "SDWORD": 4, "T1": 3, "T4": 12,
     "RC8": 1, "RC16": 2, "U4": 4, "PTR BYTE": 4, "PTR T1": 4, "NEAR PTR T1": 4, "FAR PTR T1": 6, "PTR": 4}
for a, n in T.items():
    good(struct.pack("<III", n, n, n), "l1 TYPEDEF %s" % a, "l2 TYPEDEF l1", " dd SIZEOF l1, TYPE l2, SIZEOF l2")
    good(struct.pack("<I", 4), "l1 TYPEDEF PTR %s" % a, " dd SIZEOF l1") if "PTR" not in a else None
    good(struct.pack("<II", n, n + n), "l1 TYPEDEF %s" % a, "l2 STRUCT", " a l1 %s" % ("<>" if a in NAMED or a in RECS else "?"),
         " b l1 %s" % ("<>" if a in NAMED or a in RECS else "?"), "l2 ENDS", " dd l2.b, SIZEOF l2")


def jerr(ctx, case):
    k, (t, b) = case
    got, r = one(ctx, PRE0[32] + NAMEDPRE, t, POST[32], ("-bin", "-nomlib"), lambda r: r.obj() or b"")
    ctx.outcome("decl", t, got)
    if got != b:
        return V("decl:" + t, "%s: gave %s, expected %s" % (t, got and got.hex(), b.hex() if b is not None else "an error"), source=t)


# ---- alignment options ---------------------------------------------------------
def jopt(ctx, case):
    how, zp, items = case
    out = []
    sts, rf = [], []
    for k, (kind, align, members) in enumerate(items):
        nm = ["m" + x for x in sub(len(members))]
        try:
            ty = Type(kind, align or zp, members, nm)
        except Skip:
            continue
        if not ty.size:
            continue
        s = "k%d" % (100 + k)
        t = ["%s %s %s" % (s, kind, align or "")]
        for m, n in zip(members, nm):
            t += mtext(m, n)
        t += [s + " ENDS", " dd SIZEOF " + s, " %s <>" % s]
        b = struct.pack("<I", ty.size) + ty.image()
        sts.append("\n".join(t))
        rf.append(b)
    pre = PRE0[32] + ("OPTION FIELDALIGN:%d\n" % zp if how == "option" else "")
    # named types of the preamble would take the option too: only own members here
    return batch_judge(ctx, "%s%d" % (how, zp), pre, sts, rf, " db 0EEh\n" + POST[32],
                       ["-bin", "-nomlib"] + (["-Zp%d" % zp] if how == "Zp" else []), image=lambda r: (r.obj() or b"\xee")[:-1])


def g_opt():
    own = [m for m in ALPHA if m[0] in "psal" and m[0] != "t" and m[1] != "TD"]
    own = [m for m in own if m[0] != "r"]
    for how in ("Zp", "option"):
        for zp in (1, 2, 4, 8, 16, 32):
            for c in chunks(((kind, a, ms) for n in (1, 2) for ms in itertools.product(own, repeat=n) for kind in (S, U)
                             for a in (None, 1, 2, 8)), 80):
                yield how, zp, c


# ---- members used as operands ---------------------------------------------------
def jcode(ctx, case):
    bits, items = case
    sts, rf = [], []
    for k, (align, members) in enumerate(items):
        nm = ["m" + x for x in sub(len(members))]
        try:
            ty = Type(S, align, members, nm)
        except Skip:
            continue
        s = "k%d" % (100 + k)
        t = ["%s STRUCT %s" % (s, align)]
        for m, n in zip(members, nm):
            t += mtext(m, n)
        t.append(s + " ENDS")
        b = b""
        for path, off, f in paths(ty, s, 0):
            rest = path[len(s) + 1:]
            r, mod = ("ebx", 0x43) if bits != 64 else ("rbx", 0x43)
            d = b"\x8a" + (b"\x03" if off == 0 else bytes([0x43, off]))
            # as a displacement, with and without the type, and through ASSUME
            t.append(" mov al,byte ptr [%s].%s" % (r, path))
            t.append(" mov al,byte ptr [%s+%s]" % (r, path))
            t.append(" mov al,byte ptr [%s].%s[2]" % (r, path))
            t.append(" mov al,byte ptr (%s ptr [%s]).%s" % (s, r, rest))
            b += d + d + b"\x8a" + bytes([0x43, off + 2]) + d
            if bits != 64:
                t.append(" ASSUME ebx:ptr %s" % s)
                t.append(" mov al,byte ptr [ebx].%s" % rest)
                t.append(" ASSUME ebx:nothing")
                b += d
            if f.n == 1 and f.el in (1, 2, 4) and f.ty is None and f.mem[0] != "r":
                # the member's type is the operand size
                t.append(" inc [%s].%s" % (r, path))
                b += {1: b"\xfe", 2: b"\x66\xff", 4: b"\xff"}[f.el] + (b"\x03" if off == 0 else bytes([0x43, off]))
        sts.append("\n".join(t))
        rf.append(b)
    pre = {32: ".386\n.model flat\n", 64: ".x64\n"}[bits] + NAMEDPRE + {32: ".code\n", 64: "d segment use64 'CODE'\n"}[bits]
    return batch_judge(ctx, "code%d" % bits, pre, sts, rf, POST[bits])


def g_code():
    for bits in (32, 64):
        for c in chunks(((a, ms) for n in (1, 2, 3) for ms in itertools.product(ALPHA + DEEP if n < 3 else SMALL, repeat=n)
                         for a in (1, 4) if not any(m[0] == "al" for m in ms[-1:])), 60):
            yield bits, c


ck.explore("member lists", g_lists, judge)
ck.explore("16- and 64-bit code", g_modes, judge)
ck.explore("records", g_rec, jrec)
ck.explore("declaration errors", lambda: enumerate(ERR), jerr)
ck.explore("alignment options", g_opt, jopt)
ck.explore("members as operands", g_code, jcode)
ck.explore("four members", g_four, judge)
ck.assume += ["FWORD/TBYTE members in structures aligned wider than the member have no documented boundary and are not judged",
              "negative initial values of record fields are not judged"]
ck.finish("every member list up to %d members over %d member kinds (basic types, arrays, strings, named and embedded structures and unions, records, "
          "ALIGN/EVEN) x alignment x STRUCT/UNION, three deep nests, in 16/32/64-bit code, each with every subset of explicit initialisers and each "
          "initialiser form; every record of up to 3 fields over boundary widths x default subsets x boundary values; -Zp and OPTION FIELDALIGN; "
          "members as operands; declaration errors" % (3, len(ALPHA)))

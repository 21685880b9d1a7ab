"""C04 constant expressions: every expression over a small grammar, assembled
and compared with a reference evaluator (64-bit two's complement)."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

ck = Check("C04")
M = (1 << 64) - 1


def sg(v):
    v &= M
    return v - (1 << 64) if v >> 63 else v


class Bad(Exception):
    pass


class Skip(Exception):
    """the reference does not define it (see DESIGN.md)"""


BP = {"*": 8, "/": 8, "MOD": 8, "SHL": 8, "SHR": 8, "+": 9, "-": 9, "EQ": 10, "NE": 10, "LT": 10, "LE": 10, "GT": 10,
      "GE": 10, "AND": 12, "OR": 13, "XOR": 13}
UP = {"u+": 7, "u-": 7, "NOT": 11, "HIGH": 6, "LOW": 6, "HIGHWORD": 6, "LOWWORD": 6, "HIGH32": 6, "LOW32": 6}


def un(op, a):
    a &= M
    if op == "u+": return a
    if op == "u-": return -a & M
    if op == "NOT": return ~a & M
    if op == "LOW": return a & 0xff
    if op == "HIGH": return a >> 8 & 0xff
    if op == "LOWWORD": return a & 0xffff
    if op == "HIGHWORD": return a >> 16 & 0xffff
    if op == "LOW32": return a & 0xffffffff
    if op == "HIGH32": return a >> 32


def bi(op, a, b, bits):
    a &= M
    b &= M
    sa, sb = sg(a), sg(b)
    if op == "+": return a + b & M
    if op == "-": return a - b & M
    if op == "*": return a * b & M
    if op in ("/", "MOD"):
        if b == 0:
            raise Bad
        if op == "/":
            q = abs(sa) // abs(sb)
            return (q if (sa < 0) == (sb < 0) else -q) & M
        if sa < 0 or sb < 0:
            raise Skip              # remainder of negative operands: not documented
        return a % b
    if op in ("SHL", "SHR"):
        if sb < 0:
            raise Bad
        if op == "SHL":
            return (a << b) & M if b < 64 else 0
        if a == M and bits == 32:
            a = 0xffffffff          # documented special case of 32-bit code
        return a >> b if b < 64 else 0
    if op == "AND": return a & b
    if op == "OR": return a | b
    if op == "XOR": return a ^ b
    r = {"EQ": sa == sb, "NE": sa != sb, "LT": sa < sb, "LE": sa <= sb, "GT": sa > sb, "GE": sa >= sb}[op]
    return M if r else 0


def ev(toks, bits):
    """precedence parser of its own over a token list"""
    pos = [0]

    def prim():
        if pos[0] >= len(toks):
            raise Bad
        t = toks[pos[0]]
        if isinstance(t, int):
            pos[0] += 1
            return t
        if t == "(":
            pos[0] += 1
            v = expr(99)
            if pos[0] >= len(toks) or toks[pos[0]] != ")":
                raise Bad
            pos[0] += 1
            return v
        if t in UP:
            pos[0] += 1
            return un(t, expr(UP[t]))
        raise Bad

    def expr(limit):
        v = prim()
        while pos[0] < len(toks) and toks[pos[0]] in BP and BP[toks[pos[0]]] < limit:
            op = toks[pos[0]]
            pos[0] += 1
            v = bi(op, v, expr(BP[op]), bits)
        return v

    v = expr(99)
    if pos[0] != len(toks):
        raise Bad
    return v & M


def num(n):
    """one spelling per value: decimal below 10, else hex with 0"""
    return str(n) if n < 10 else "0%Xh" % n


def text(toks):
    return " ".join(num(t) if isinstance(t, int) else t[1:] if t in ("u+", "u-") else t for t in toks)


VAL = [0, 1, 2, 3, 7, 0x80, 0xff, 0x1234, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x123456789abcdef0,
       0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff]
B = list(BP)
U = list(UP)
PRE = {32: ".386\n.model flat\n.data\n", 64: ".x64\nd segment use64\n", 16: ".286\nd segment\n"}
POST = {32: "end\n", 64: "d ends\nend\n", 16: "d ends\nend\n"}


def judge(ctx, case):
    tag, bits, items = case
    st, rf = [], []
    for toks in items:
        try:
            v = ev(toks, bits)
        except Bad:
            v = None
        except Skip:
            ctx.n["undefined"] += 1
            continue
        st.append(" dq " + text(toks))
        rf.append(None if v is None else v.to_bytes(8, "little"))
    return batch_judge(ctx, tag + str(bits), PRE[bits], st, rf, POST[bits])


def g_pairs():
    """one and two operators: every operator, prefix and boundary value"""
    def it():
        for a in VAL:
            yield (a,)
            for u in U:
                yield (u, a)
                for u2 in U:
                    yield (u, u2, a)
        for op in B:
            for a in VAL:
                for b in VAL:
                    yield (a, op, b)
                    for u in ("u-", "NOT"):
                        yield (u, a, op, b)
                        yield (a, op, u, b)
                        yield (a, op, "(", u, b, ")")
            for u in U:
                for a in (5, 0x1234, 0xffffffff, 0x123456789abcdef0):
                    yield (u, a, op, 3)
                    yield (u, "(", a, op, 3, ")")
                    yield (3, op, u, a)
                    yield (a, op, u, 3, "+", 1)
        for n in (0, 1, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, 0xffff, 0x10000, 0x7fffffff, 0x80000000,
                  0xffffffff, 0x100000000, 0x100000001, 1 << 62):
            for a in VAL:
                for op in ("SHL", "SHR"):
                    yield (a, op, n)
                    yield ("u-", a, op, n)
                    yield (a, op, "u-", n)
    for bits in (32, 64, 16):
        for c in chunks(it(), 300):
            yield ("pair", bits, c)


def g_prec():
    """two and three binary operators, each parenthesisation, prefix operators in each place"""
    vals = [(7, 2, 3, 5), (0x10, 3, 2, 1), (1, 0xffffffff, 1, 2)]

    def it():
        for v in vals:
            for o1 in B:
                for o2 in B:
                    a, b, c, d = v
                    yield (a, o1, b, o2, c)
                    yield ("(", a, o1, b, ")", o2, c)
                    yield (a, o1, "(", b, o2, c, ")")
                    for u in U:
                        yield (u, a, o1, b, o2, c)
                        yield (a, o1, u, b, o2, c)
                        yield (a, o1, b, o2, u, c)
                        yield (u, "(", a, o1, b, ")", o2, c)
                        yield (a, o1, u, "(", b, o2, c, ")")
        for v in vals if ck.thorough else vals[:2]:
            a, b, c, d = v
            for o1 in B:
                for o2 in B:
                    for o3 in B:
                        yield (a, o1, b, o2, c, o3, d)
                        yield (a, o1, "(", b, o2, c, ")", o3, d)
                        yield ("(", a, o1, b, ")", o2, "(", c, o3, d, ")")
                        if ck.thorough:
                            yield (a, o1, "(", b, o2, c, o3, d, ")")
                            yield ("(", a, o1, b, o2, c, ")", o3, d)
                            for u in U:
                                yield (a, o1, u, b, o2, c, o3, d)
                                yield (a, o1, b, o2, u, c, o3, d)
        if ck.thorough:
            a, b, c, d = vals[0]
            for os_ in itertools.product(B, repeat=4):
                yield (a, os_[0], b, os_[1], c, os_[2], d, os_[3], 2)
    for c in chunks(it(), 400):
        yield ("prec", 32, c)


def g_syntax():
    """every token sequence up to a length, well-formed or not"""
    al = [5, 3, "+", "-", "*", "/", "(", ")", "NOT", "EQ", "SHL", "LOW"]
    n = 6 if ck.thorough else 5

    def it():
        for k in range(1, n + 1):
            for s in itertools.product(al, repeat=k):
                # '-' and '+' are prefix or infix by place
                t = []
                for x in s:
                    pre = not t or t[-1] in BP or t[-1] in UP or t[-1] == "("
                    t.append("u" + x if x in ("+", "-") and pre else x)
                # drop what is not about the expression: call-like "5 (3)", "()"
                if any(b in ("(", 3, 5) and (a in (3, 5, ")")) or (a, b) == ("(", ")") for a, b in zip(t, t[1:])
                       if b == "(" or b == ")"):
                    continue
                yield tuple(t)
    for c in chunks(it(), 500):
        yield ("syntax", 32, c)


# --- literals: every radix, with suffix, with .RADIX, 0x form, by digits
DIG = "0123456789ABCDEF"


def todig(v, r):
    s = ""
    while v:
        s = DIG[v % r] + s
        v //= r
    return s or "0"


def g_lit():
    vals = sorted({0, 1, 2, 7, 8, 9, 10, 15, 16, 0x7f, 0x80, 0xff, 0x100, 0xabcdef, 99999, 0x7fffffff, 0x80000000,
                   0xffffffff, 0x100000000, 12345678901234567890, 0xdeadbeefcafebabe} | {(1 << k) - 1 for k in range(1, 65)} |
                  {1 << k for k in range(0, 64)} | {10 ** k for k in range(0, 20)} | {10 ** k - 1 for k in range(1, 20)})
    for bits in (32, 64):
        for rad in range(2, 17):
            yield ("lit", bits, rad, vals)


SUF = {2: ["b", "y", "B", "Y"], 8: ["o", "q", "O", "Q"], 10: ["t", "d", "T", "D", ""], 16: ["h", "H"]}


def f_lit(ctx, case):
    tag, bits, rad, vals = case
    st, rf = [], []
    pre = PRE[bits] + ".radix %dt\n" % rad

    def add(s, v):
        st.append(" dq " + s)
        rf.append(None if v is None else v.to_bytes(8, "little"))
    for v in vals:
        s = todig(v, rad)
        if not s[0].isdigit():
            s = "0" + s
        if rad != 16 or True:
            # a bare number in the radix in force; last digit must not be read as a suffix
            last = s[-1]
            amb = (last in "BD" and len(s) > 1)
            if not amb:
                add(s, v)
                add(s.lower(), v)
                add("000" + s, v)
        for r2, sl in SUF.items():
            d = todig(v, r2)
            if not d[0].isdigit():
                d = "0" + d
            for x in sl:
                if x == "" and rad != 10:
                    continue
                if x.upper() in ("B", "D") and rad > (11 if x.upper() == "B" else 13):
                    continue
                add(d + x, v)
                add("0" + d.lower() + x, v)
        add("0x" + todig(v, 16), v)
        add("0X" + todig(v, 16).lower(), v)
    # a digit that does not exist in the radix is an error
    for r2, sl in SUF.items():
        for x in sl:
            if x and r2 < 16 and not (x.upper() in ("B", "D") and rad > 10):
                add("1" + DIG[r2] + x, None) if DIG[r2].isdigit() else None
    if rad < 10:
        add("1" + DIG[rad], None)
    out = []
    for i in range(0, len(st), 400):
        out += batch_judge(ctx, "lit%d.%d" % (bits, rad), pre, st[i:i + 400], rf[i:i + 400], POST[bits]) or []
    return out or None


# --- the same expression through equates gives the same value
def g_equ():
    al = [1, 2, 0x7fffffff, 0x80000000, 0xffffffff]
    items = [(a, op, b) for a in al for op in B for b in al]
    for bits in (32, 64):
        for c in chunks(items, 150):
            yield ("equ", bits, c)


def f_equ(ctx, case):
    tag, bits, items = case
    st, rf = [], []
    k = 0
    for a, op, b in items:
        try:
            v = ev((a, op, b), bits)
        except (Bad, Skip):
            continue
        e = v.to_bytes(8, "little")
        k += 1
        st.append("ea%d equ %s\neb%d = %s\n dq ea%d %s eb%d" % (k, num(a), k, num(b), k, op, k)); rf.append(e)
        st.append("ec%d textequ <%s %s %s>\n dq ec%d" % (k, num(a), op, num(b), k)); rf.append(e)
        # the % operator shows a negative 32-bit value as unsigned 32-bit (MASM compatible)
        te = (v & 0xffffffff if -0x80000000 <= sg(v) < 0 else v).to_bytes(8, "little")
        st.append("ed%d textequ %%(%s %s %s)\n dq ed%d" % (k, num(a), op, num(b), k)); rf.append(te)
        st.append("eg%d macro p\n dq p\nendm\n eg%d %%(%s %s %s)" % (k, k, num(a), op, num(b))); rf.append(e)
        if -0x80000000 <= sg(v) <= 0xffffffff and not (bits == 32 and v == M):
            st.append("ee%d = %s %s %s\n dq ee%d" % (k, num(a), op, num(b), k)); rf.append(e)
            st.append("ef%d equ %s %s %s\n dq ef%d" % (k, num(a), op, num(b), k)); rf.append(e)
    return batch_judge(ctx, tag + str(bits), PRE[bits], st, rf, POST[bits])


ck.explore("operators and values", g_pairs, judge)
ck.explore("precedence", g_prec, judge)
ck.explore("token sequences", g_syntax, judge)
ck.explore("literals", g_lit, f_lit)
ck.explore("equates", g_equ, f_equ)
ck.assume = ["MOD is only defined for non-negative operands", "-1 SHR n in 32-bit code is the 32-bit shift UASM's change log documents"]
ck.finish("all expressions with one operator and every prefix pair over 16 boundary values in 16/32/64-bit code; all with two (three; four in the thorough tier) binary operators and each parenthesisation; all token sequences up to length %d over 12 tokens; literals in every radix; a state is a distinct (family, value or rejection) outcome, a transition one assembled statement" % (6 if ck.thorough else 5),
          validated=ck.n["steps"] and ck.n["accepted"] + ck.n["rejected"])

"""C05 data directives: initializer trees enumerated and assembled; emitted
bytes and the size operators compared with a reference."""
import itertools, os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

ck = Check("C05")
PRE = {16: ".286\nd segment\n", 32: ".386\n.model flat\n.data\n", 64: ".x64\nd segment use64\n"}
POST = {16: "d ends\nend\n", 32: "end\n", 64: "d ends\nend\n"}
DIR = {"DB": 1, "BYTE": 1, "SBYTE": 1, "DW": 2, "WORD": 2, "SWORD": 2, "DD": 4, "DWORD": 4, "SDWORD": 4, "DF": 6,
       "FWORD": 6, "DQ": 8, "QWORD": 8, "SQWORD": 8, "DT": 10, "TBYTE": 10, "OWORD": 16, "XMMWORD": 16}


# an initializer: ("n", value) ("?",) ("s", text, quote) ("d", count, [init...])
def txt(x):
    if x[0] == "n":
        return (str(x[1]) if -10 < x[1] < 10 else "0%Xh" % x[1] if x[1] >= 0 else "-0%Xh" % -x[1])
    if x[0] == "?":
        return "?"
    if x[0] == "s":
        return x[2] + x[1].replace(x[2], x[2] * 2) + x[2]
    if x[0] == "e":
        return x[1]
    return "%d DUP (%s)" % (x[1], ",".join(txt(y) for y in x[2]))


class Bad(Exception):
    pass


class Skip(Exception):
    pass


def val(n, v):
    if n < 8 and (1 << 64) - (1 << 8 * n) <= v < 1 << 64:
        raise Skip                 # as a 64-bit number it is the same as a small negative one
    if n < 8 and -(1 << 64) < v <= -(1 << 64) + (1 << 8 * n):
        raise Skip
    if abs(v) < 1 << 128 and (v >= 1 << 127 or v < -(1 << 127)) and n < 16:
        raise Skip                 # 128-bit numbers wrap in the same way
    if n == 8 and v < -(1 << 63) and v > -(1 << 64):
        raise Skip
    if v >= 1 << 8 * n or v < -(1 << 8 * n):
        raise Bad
    if v < -(1 << 8 * n - 1):
        raise Skip                 # MASM tolerance: -255..-129 in a byte
    return (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")


def enc(n, x):
    """-> (bytes, number of items)"""
    if x[0] == "n":
        return val(n, x[1]), 1
    if x[0] == "e":
        return val(n, x[2]), 1
    if x[0] == "?":
        return bytes(n), 1
    if x[0] == "s":
        s = x[1].encode("latin1")
        if not s:
            raise Bad
        if n == 1:
            return s, len(s)
        if len(s) > n:
            raise Bad
        return s[::-1].ljust(n, b"\0"), 1
    b, c = b"", 0
    for y in x[2]:
        p, q = enc(n, y)
        b += p
        c += q
    return b * x[1], c * x[1]


def first(n, x):
    """LENGTH/SIZE: the first dimension"""
    if x[0] == "d":
        if x[1] == 0:
            raise Skip
        return x[1]
    return 1


def stmt(k, d, inits, ops=True):
    n = DIR[d]
    t = "l%d %s %s" % (k, d, ",".join(txt(x) for x in inits))
    b, c = b"", 0
    for x in inits:
        p, q = enc(n, x)
        b += p
        c += q
    if ops:
        t += "\n dd LENGTHOF l%d, SIZEOF l%d, TYPE l%d" % (k, k, k)
        b += struct.pack("<III", c, c * n, n)
        try:
            f = first(n, inits[0])
            t += ", LENGTH l%d, SIZE l%d" % (k, k)
            b += struct.pack("<II", f, f * n)
        except Skip:
            pass
    return t, b


def judge(ctx, case):
    tag, bits, items = case
    st, rf = [], []
    for k, (d, inits) in enumerate(items):
        try:
            t, b = stmt(k, d, inits)
        except Bad:
            t, b = "l%d %s %s" % (k, d, ",".join(txt(x) for x in inits)), None
        except Skip:
            continue
        st.append(t)
        rf.append(b)
    # a closing byte keeps trailing '?' in the image
    return batch_judge(ctx, "%s%d" % (tag, bits), PRE[bits], st, rf, " db 0EEh\n" + POST[bits],
                       image=lambda r: (r.obj() or b"\xee")[:-1])


def trees(depth, budget, atoms):
    """all initializers with at most `budget` nodes and DUP nesting <= depth"""
    for a in atoms:
        yield a, budget - 1
    if depth and budget >= 2:
        for c in (0, 1, 2, 3):
            for l, rest in lists(depth - 1, budget - 1, atoms):
                yield ("d", c, l), rest


def lists(depth, budget, atoms):
    if budget < 1:
        return
    for x, rest in trees(depth, budget, atoms):
        yield [x], rest
        for l, r2 in lists(depth, rest, atoms):
            yield [x] + l, r2


def g_shapes():
    full = {"DB": [("n", 1), ("?",), ("s", "ab", "'")], "DW": [("n", 1), ("?",), ("s", "ab", "'")],
            "DD": [("n", -1), ("?",)], "DF": [("n", 0x123456789abc), ("?",)], "DQ": [("n", 2), ("?",)],
            "DT": [("n", 0x123456789abcdef01234), ("?",)], "OWORD": [("n", -2), ("?",)]}
    for d, atoms in full.items():
        b = (6 if d == "DB" else 5) if ck.thorough else (5 if d in ("DB", "DW") else 4)
        for c in chunks(((d, l) for l, r in lists(3, b, atoms)), 150):
            yield ("shape", 32, c)


def g_values():
    for bits in (16, 32, 64):
        def it():
            for d, n in DIR.items():
                vs = set()
                for k in sorted({8, 16, 32, 48, 64, 80, 128, 8 * n, 136, 192}):
                    for h in (k - 1, k):
                        for o in (-2, -1, 0, 1, 2):
                            vs.add((1 << h) + o)
                            vs.add(-(1 << h) + o)
                vs |= {0, 1, -1, 0x55, 0x1234, 0x12345678, 0x123456789abcdef0}
                for v in sorted(vs):
                    yield (d, [("n", v)])
                    if -n <= v <= n:
                        yield (d, [("d", 2, [("n", v)])])
        for c in chunks(it(), 120):
            yield ("value", bits, c)


def g_strings():
    al = ["a", "'", '"', " ", ";", ",", "<", "!", "\\", "%", "&", "("]
    mx = 4 if ck.thorough else 3

    def it():
        for d in ("DB", "DW", "DD", "DF", "DQ", "DT"):
            n = DIR[d]
            for q in "'\"":
                for k in range(0, mx + 1):
                    if k > 2 and d not in ("DB", "DD"):
                        continue
                    for s in itertools.product(al, repeat=k):
                        yield (d, [("s", "".join(s), q)])
                for k in range(1, 20):
                    s = "ABCDEFGHIJKLMNOPQRST"[:k]
                    if n != 1 and k > n and n > 8:
                        continue
                    yield (d, [("s", s, q)])
                    yield (d, [("n", 1), ("s", s, q), ("?",)])
                    yield (d, [("d", 3, [("s", s, q)])])
            for cc in range(1, 128):
                if chr(cc) in "\r\n\x1a":
                    continue
                yield (d, [("s", chr(cc), "'" if chr(cc) != "'" else '"')])
            if n == 1:
                for cc in range(128, 256):
                    yield (d, [("s", chr(cc), "'")])
    for c in chunks(it(), 200):
        yield ("string", 32, c)


def g_long():
    # long lists, long strings, long DUP counts
    def it():
        for n in list(range(1, 40)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 150]:
            yield ("DB", [("n", k & 0xff) for k in range(n)])
            yield ("DW", [("n", k) for k in range(n)])
        for n in [1, 2, 100, 127, 128, 200, 250, 254, 255, 256, 257, 400, 500, 511, 512, 513]:
            yield ("DB", [("s", ("x" * 9 + "y") * 60, "'")[:1] + ((("x" * 9 + "y") * 60)[:n], "'")])
        for n in [1, 2, 7, 8, 9, 255, 256, 257, 1000, 1021, 1022, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 70000]:
            for d in ("DB", "DW", "DD", "DF", "DQ", "DT"):
                yield (d, [("d", n, [("n", 1)])])
                yield (d, [("d", n, [("?",)]), ("n", 3)])
                yield (d, [("d", n, [("n", 1), ("?",), ("n", 2)])])
    for c in chunks(it(), 12):
        yield ("long", 32, c)


EXPR = [("1+2", 3), ("(1+2)*3", 9), ("-(4)", -4), ("5 MOD 3", 2), ("1 SHL 7", 128), ("NOT 0 AND 0Fh", 15),
        ("SIZEOF st1", 7), ("TYPE DWORD", 4), ("'a'+1", 0x62), ("'ab'-'aa'", 1), ("eq1", 5), ("eq1*2", 10), ("tx1", 9), ("st1.m2", 4),
        ("HIGH 1234h", 0x12), ("1 EQ 1", -1), ("(3)", 3), ("3 DUP (1+1)", None), ("l2-l1", 9), ("rec1 <1>", None)]


def g_mix():
    xs = [("e", t, v) for t, v in EXPR if v is not None] + [("n", 1), ("?",), ("s", "z", "'")]

    def it():
        for d in DIR:
            for a in xs:
                yield (d, [a])
                yield (d, [("d", 2, [a])])
                for b in xs:
                    if d in ("DB", "DW", "DD", "DQ", "SBYTE"):
                        yield (d, [a, b])
                        yield (d, [("d", 2, [a, b]), a])
    for c in chunks(it(), 100):
        yield ("mix", 32, c)


def f_mix(ctx, case):
    tag, bits, items = case
    pre = PRE[bits] + "st1 struct\nm1 dd ?\nm2 dw ?\nm3 db ?\nst1 ends\neq1 equ 5\ntx1 textequ <9>\nl1 db 9 dup (7)\nl2 label byte\n"
    st, rf = [], []
    for k, (d, inits) in enumerate(items):
        try:
            t, b = stmt(1000 + k, d, inits)
        except Bad:
            t, b = "k%d %s %s" % (k, d, ",".join(txt(x) for x in inits)), None
        except Skip:
            continue
        if DIR[d] > 8 and any("1 EQ 1" in txt(x) or "-" in txt(x) for x in inits):
            continue           # computed negative values are 64-bit (see DESIGN.md)
        st.append(t)
        rf.append(b)
    return batch_judge(ctx, tag, pre, st, rf, " db 0EEh\n" + POST[bits],
                       image=lambda r: (r.obj() or b"\xee")[9:-1])


# malformed lists must be rejected, whatever they look like
def g_syn():
    toks = ["1", ",", "?", "DUP", "(", ")", "'a'"]
    n = 7 if ck.thorough else 6
    for d in ("DB", "DW", "DD"):
        def it():
            for k in range(1, n + 1):
                for s in itertools.product(toks, repeat=k):
                    yield s
        for c in chunks(it(), 700):
            yield ("syntax", d, c)


def parse(s):
    """init list grammar; -> inits or None"""
    pos = 0

    def item():
        nonlocal pos
        if pos >= len(s):
            raise Bad
        t = s[pos]
        if t == "?":
            pos += 1
            return ("?",)
        v = expr()
        if pos < len(s) and s[pos] == "DUP":
            if v[0] == "s":
                c = ord("a")
            else:
                c = v[1]
            pos += 1
            if pos >= len(s) or s[pos] != "(":
                raise Bad
            pos += 1
            l = lst()
            if pos >= len(s) or s[pos] != ")":
                raise Bad
            pos += 1
            return ("d", c, l)
        return v

    def expr():
        nonlocal pos
        t = s[pos]
        if t == "1":
            pos += 1
            return ("n", 1)
        if t == "'a'":
            pos += 1
            return ("s", "a", "'")
        if t == "(":
            pos += 1
            if pos >= len(s):
                raise Bad
            v = expr()
            if pos >= len(s) or s[pos] != ")":
                raise Bad
            pos += 1
            return v
        raise Bad

    def lst():
        nonlocal pos
        l = [item()]
        while pos < len(s) and s[pos] == ",":
            pos += 1
            l.append(item())
        return l
    l = lst()
    if pos != len(s):
        raise Bad
    return l


def f_syn(ctx, case):
    tag, d, seqs = case
    st, rf = [], []
    for s in seqs:
        if s[-1] == ",":
            continue              # a trailing comma continues the line
        if any(a in ("1", "'a'", ")") and b == "(" for a, b in zip(s, s[1:])):
            continue              # juxtaposition adds, see C04
        if ("(", ")") in list(zip(s, s[1:])) or (",", ")") in list(zip(s, s[1:])):
            continue              # an empty list: assembler-specific
        try:
            inits = parse(s)
            b = b"".join(enc(DIR[d], x)[0] for x in inits)
        except Bad:
            b = None
        st.append(" " + d + " " + " ".join(s))
        rf.append(b)
    if not st:
        return None
    return batch_judge(ctx, tag + d, PRE[32], st, rf, " db 0EEh\n" + POST[32], image=lambda r: (r.obj() or b"\xee")[:-1])


def g_cnt():
    yield "cnt"


def f_cnt(ctx, case):
    st, rf = [], []
    for c, n in [("0", 0), ("1", 1), ("-1", None), ("100000000h", None), ("80000000h", None), ("0FFFFFFFFFFFFFFFFh", None),
                 ("100000001h", None), ("(1+1)", 2), ("2*3", 6), ("undef1", None), ("eax", None), ("?", None), ("l1", None), ("3.0", None)]:
        for d in ("DB", "DW", "DD", "DQ"):
            st.append(" %s %s DUP (1)" % (d, c))
            rf.append(None if n is None else (1).to_bytes(DIR[d], "little") * n)
    for d in DIR:
        st.append(" %s" % d); rf.append(None)
    return batch_judge(ctx, "count", PRE[32] + "l1 db 0\n", st, rf, " db 0EEh\n" + POST[32], image=lambda r: (r.obj() or b"\xee")[1:-1])


ck.explore("shapes", g_shapes, judge)
ck.explore("values", g_values, judge)
ck.explore("strings", g_strings, judge)
ck.explore("long", g_long, judge)
ck.explore("mixed", g_mix, f_mix)
ck.explore("token sequences", g_syn, f_syn)
ck.explore("counts", g_cnt, f_cnt)
ck.assume = ["values between -2^bits and -2^(bits-1)-1 are accepted by MASM tolerance and not judged",
             "initializers wider than 64 bits are literals with an optional sign; computed expressions are 64-bit"]
ck.finish("all initializer trees up to 5 nodes (6 thorough) and DUP depth 3 per directive; all boundary values per directive in 16/32/64-bit; all strings over 12 characters up to length 3 (4); DUP counts to 70000; all token sequences up to length 6 (7); states are distinct (part, bytes or rejection), transitions assembled statements",
          validated=ck.n["accepted"] + ck.n["rejected"])

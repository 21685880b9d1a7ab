"""C06 real literals: every literal of the enumerated sets is assembled as
REAL4/REAL8/REAL10 and compared with the correctly rounded value computed in
exact rational arithmetic."""
import itertools, os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from fractions import Fraction

ck = Check("C06")
PRE = ".386\n.model flat\n.data\n"
FMT = {4: (24, -126, 127), 8: (53, -1022, 1023), 10: (64, -16382, 16383)}   # mantissa bits, emin, emax


class Overflow(Exception):
    pass


def rnd(q, n):
    """correctly rounded (half to even): -> (mantissa, exponent of its lsb, exact?, denormal?)"""
    p, emin, emax = FMT[n]
    if q == 0:
        return 0, 0, False
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if Fraction(2) ** e > q:
        e -= 1
    den = e < emin
    lsb = max(e, emin) - p + 1
    x = q / Fraction(2) ** lsb
    m = x.numerator // x.denominator
    r = x - m
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and m & 1):
        m += 1
    if m == 1 << p:
        m >>= 1
        lsb += 1
    if lsb + p - 1 > emax:
        raise Overflow
    return m, lsb, den


def enc(q, n, neg=False):
    p, emin, emax = FMT[n]
    m, lsb, den = rnd(q, n)
    if m == 0:
        e = 0
    elif m < 1 << (p - 1):
        e = 0
    else:
        e = lsb + p - 1 + emax
    if n == 10:
        return (m | (e | (0x8000 if neg else 0)) << 64).to_bytes(10, "little"), den
    return ((m & ((1 << (p - 1)) - 1)) | e << (p - 1) | (neg << (8 * n - 1))).to_bytes(n, "little"), den


def ref(lit, n):
    """None: must be an error; (b,): b or an error; b: b"""
    neg = lit[0] == "-"
    s = lit.lstrip("+-")
    mant, _, ex = s.lower().partition("e")
    q = Fraction(mant)
    ex = max(-20000, min(20000, int(ex or 0)))       # far outside every format already
    q = q * 10 ** ex if ex >= 0 else q / 10 ** -ex
    try:
        b, den = enc(q, n, neg)
    except Overflow:
        return None
    if q and den:
        return (b,)            # denormals and underflow: the right bits, or rejected
    return b


DIRS = {4: ("REAL4", "DD"), 8: ("REAL8", "DQ"), 10: ("REAL10", "DT")}


def judge(ctx, case):
    part, d, n, lits = case
    st = [" %s %s" % (d, l) for l in lits]
    rf = [ref(l, n) for l in lits]
    ctx.n["literals"] += len(lits)
    return batch_judge(ctx, part, PRE, st, rf, "end\n")


def sets(part, it, dirs=("REAL4", "REAL8", "REAL10"), sz=150):
    for d in dirs:
        n = [k for k in DIRS if d in DIRS[k]][0]
        for c in chunks(it(n), sz):
            yield part, d, n, c


# 1. all short decimal numerals x exponent forms
def g_short():
    def it(n):
        ex = ["", "e0", "E1", "e-1", "e+2", "e5", "e-5", "e10", "e-10", "e22", "e23", "e-22", "e-23", "e37", "e38", "e39", "e-36", "e-37",
              "e-44", "e-45", "e-46"] + ([] if n == 4 else ["e100", "e-100", "e200", "e-200", "e300", "e-300", "e307", "e308", "e309", "e-306", "e-307", "e-323", "e-325", "e-400"]) + \
             ([] if n != 10 else ["e1000", "e-1000", "e2000", "e-2000", "e4000", "e-4000", "e4095", "e4096", "e-4096", "e4900", "e-4900", "e4930", "e4931", "e4932", "e4933", "e-4929", "e-4930", "e-4931", "e-4932", "e5000", "e10000", "e-10000"])
        top = 100 if ck.thorough else 20
        for a in range(0, top):
            for f in [""] + [str(i) for i in range(10)] + (["%02d" % i for i in range(100)] if ck.thorough else ["05", "25", "99", "01"]):
                for e in ex:
                    yield "%d.%s%s" % (a, f, e)
    return sets("short", it)


# 2. exact midpoints between neighbouring floats, and one unit off in a far digit
def dec(q):
    """exact decimal numeral of a dyadic rational >= 0"""
    k = q.denominator.bit_length() - 1
    s = str(q.numerator * 5 ** k).rjust(k + 1, "0")
    return (s[:-k] + "." + s[-k:]) if k else s + "."


def g_mid():
    def it(n):
        p, emin, emax = FMT[n]
        ms = [1 << (p - 1), (1 << (p - 1)) + 1, (1 << (p - 1)) + 2, (1 << p) - 1, (1 << p) - 2, 0xAAAAAAAAAAAAAAAA >> (64 - p)]
        for k in range(3 if not ck.thorough else 20):
            ms.append((1 << (p - 1)) | (0x9E3779B97F4A7C15 * (k + 1) >> 3) & ((1 << (p - 1)) - 1))
        if n == 4:
            es = range(-30, 31, 1 if ck.thorough else 3)
        else:
            es = range(-12, 80, 1 if ck.thorough else 4)
        es = list(es) + [x - p + 1 for x in ((40, 70, 100, 126, 127) if n == 4 else (200, 250))]
        for e in es:
            for m in ms:
                for num in (2 * m, 2 * m + 1):
                    q = Fraction(num) * Fraction(2) ** (e - 1)
                    s = dec(q)
                    if len(s) > 200:
                        continue
                    yield s
                    if num & 1:
                        yield s + "000000000000000000000000000001"
                        t = s.rstrip("0")
                        # the largest numeral below
                        if t[-1] == ".":
                            yield str(int(t[:-1]) - 1) + ".99999999999999999999999999999"
                        else:
                            yield t[:-1] + str(int(t[-1]) - 1) + "99999999999999999999999999999"
    return sets("midpoint", it, sz=60)


# 3. digit strings of growing length (leading/trailing zeros, long mantissas), point at each place
def g_long():
    def it(n):
        base = "12345678901234567890123456789012345678901234567890"
        for L in range(1, 46):
            for src in (base, "9" * 50, "1" + "0" * 49, "18446744073709551615" * 3, "79228162514264337593543950336" * 2, "72057594037927937" * 3):
                for pt in range(0, L + 1, 1 if ck.thorough or L < 6 else 4):
                    s = src[:L]
                    yield (s[:pt] or "0") + "." + s[pt:]
        for z in range(0, 60, 3):
            yield "0" * z + "1.5"
            yield "0." + "0" * z + "15625"
            if z < (36 if n == 4 else 60):
                yield "15" + "0" * z + "."
                yield "1." + "0" * z
            yield "0." + "0" * z + "e5"
        for e in ("0", "00", "000000000000", "+0", "-0", "+00005", "-00005", "-000000000000000000005", "00000000000000000000001"):
            yield "1.5e" + e
        yield "0.0e5000"; yield "0.0e-5000"; yield "0.0"; yield "0."; yield "00.00"; yield "0.0e99999"
    return sets("long", it, sz=80)


# 4. signs and DD/DQ/DT spellings
def g_sign():
    def it(n):
        for s in ("-", "+", ""):
            for a in ("0.0", "1.0", "1.5", "2.5e10", "1.0e-10", "3.14159265358979323846", "0.1", "123456.789", "1.0e30", "1.0E+5", "9.999999e-5"):
                yield s + a
    return sets("sign", it, dirs=[x for v in DIRS.values() for x in v])


# 5. overflow limits: largest finite, half an ulp above, and powers above
def g_lim():
    def it(n):
        p, emin, emax = FMT[n]
        big = ((1 << p) - 1) << (emax - p + 1)
        half = 1 << (emax - p)
        if n < 10:
            for x in (big, big + half - 1, big + half, big + half + 1, big + 2 * half, big * 2, big * 10, big * 100):
                yield str(x) + "."
                yield "-" + str(x) + ".0"
        k = {4: 38, 8: 308, 10: 4932}[n]
        d = {4: "3.40282346638528859811704183484516925", 8: "1.79769313486231570814527423731704356", 10: "1.18973149535723176502126385303097021"}[n]
        for c in range(2, len(d) + 1):
            yield d[:c] + "e%d" % k
            yield d[:c - 1] + str((int(d[c - 1]) if d[c - 1] != "." else 0) + 1 if d[c - 1] != "9" else 9) + "e%d" % k if d[c - 1] != "." else "4.0e%d" % k
        for e in range(k - 2, k + 6):
            for m in ("1.0", "1.1", "1.19", "1.79", "1.8", "3.4", "3.5", "9.9"):
                yield m + "e%d" % e
        for e in (5000, 9999, 32768, 65536, 99999, 1000000, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 18446744073709551616):
            yield "1.0e%d" % e
            yield "1.0e-%d" % e
        # smallest normal
        k = {4: -38, 8: -308, 10: -4932}[n]
        d = {4: "1.17549435082228750796873653722224568", 8: "2.22507385850720138309023271733240406", 10: "3.36210314311209350626267781732175260"}[n]
        for c in range(3, len(d) + 1):
            yield d[:c] + "e%d" % k
        for m in ("1.18", "1.2", "2.0", "2.23", "3.0", "3.37", "4.0", "9.9"):
            for e in range(k - 2, k + 3):
                yield m + "e%d" % e
    return sets("limit", it, sz=60)


# 6. hexadecimal reals
HEX = "0123456789ABCDEF"


def f_hex(ctx, case):
    _, d, n, lits = case
    st, rf = [], []
    for s in lits:
        dig = s[:-1]
        if dig[0].isdigit() and len(dig) in (2 * n, 2 * n + 1):
            v = int(dig, 16)
            rf.append(v.to_bytes(n, "little") if len(dig) == 2 * n or dig[0] == "0" else None)
            st.append(" %s %s" % (d, s))
        elif len(dig) < 2 * n:
            # MASM demands all digits; a shorter numeral is the low digits or an error
            rf.append((int(dig, 16).to_bytes(n, "little"),))
            st.append(" %s %s" % (d, s))
        else:
            v = int(dig, 16)
            rf.append(None if v >> 8 * n else (v.to_bytes(n, "little"),))
            st.append(" %s %s" % (d, s))
    return batch_judge(ctx, "hex", PRE, st, rf, "end\n")


def g_hex():
    for d, n in (("REAL4", 4), ("REAL8", 8), ("REAL10", 10), ("DD", 4), ("DQ", 8), ("DT", 10)):
        def it():
            for L in (1, 2, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, 2 * n + 8, 31, 32):
                for pat in ("0", "1", "8", "9", "F", "A", "7F", "3F8", "123456789ABCDEF0", "FEDCBA9876543210"):
                    s = (pat * 40)[:L]
                    for x in {s, "0" + s[1:], "0" + s, s[:-1] + "1", "7" + s[1:]}:
                        if x and x[0].isdigit():
                            yield x + "r"
                            yield x.lower() + "R"
            for i in range(2 * n):
                for c in HEX:
                    z = "0" * i + c + "0" * (2 * n - i - 1)
                    if z[0].isdigit():
                        yield z + "r"
                    else:
                        yield "0" + z + "r"
        for c in chunks(it(), 150):
            yield "hex", d, n, c


# 7. ill-formed numerals: all strings over an alphabet up to a length
import re
GOOD = re.compile(r"^[+-]?[0-9]+\.[0-9]*(e[+-]?[0-9]+)?$")


def f_syn(ctx, case):
    part, d, n, lits = case
    st, rf = [], []
    for l in lits:
        if GOOD.match(l):
            x = ref(l, n)
        else:
            x = None
        st.append(" %s %s" % (d, l)); rf.append(x)
    return batch_judge(ctx, part, PRE, st, rf, "end\n")


def g_syn():
    def it(n):
        for L in range(1, 8 if ck.thorough else 7):
            for t in itertools.product("1.e+0", repeat=L):
                s = "".join(t)
                if s[0] not in "10+" or "." not in s or not re.search("[01]", s):
                    continue             # a numeral has a point
                if re.search(r"e[+]?$", s):
                    continue             # exponent without digits: tolerated (documented in tokenize.c)
                if re.search(r"[+]", re.sub(r"e\+", "", s[1:])):
                    continue             # a sum: not a literal
                yield s
    return sets("syntax", it, dirs=("REAL4", "REAL10") if not ck.thorough else ("REAL4", "REAL8", "REAL10"), sz=150)


# 8. other places that take a real: REALx fields, DUP lists, mixed
def g_dup():
    yield 0


def f_dup(ctx, case):
    st, rf = [], []
    for n, d in ((4, "REAL4"), (8, "REAL8"), (10, "REAL10")):
        f = lambda s: ref(s, n)
        st += [" %s 1.5, -2.25, ?" % d, " %s 3 dup (0.1)" % d, " %s 2 dup (1.5, 2 dup (-0.3))" % d, " %s 1.0,\n 2.0" % d,
               " %s +1.5, -1.5" % d, " %s 1.0, 2.0, 3.0, 1.0e10" % d]
        z = bytes(n)
        rf += [f("1.5") + f("-2.25") + z, f("0.1") * 3, (f("1.5") + f("-0.3") * 2) * 2, f("1.0") + f("2.0"), f("1.5") + f("-1.5"),
               f("1.0") + f("2.0") + f("3.0") + f("1.0e10")]
    return batch_judge(ctx, "dup", PRE, st, rf, "end\n")


# 9. integers in real items (UASM extension): the exact value
def g_int():
    for d, n in (("REAL4", 4), ("REAL8", 8), ("REAL10", 10)):
        vals = []
        for k in range(0, 63):
            for x in (-1, 0, 1):
                v = (1 << k) + x
                vals += [v, -v]
        vals += [10 ** k for k in range(19)] + [-(10 ** k) for k in range(19)] + [123456789, 16777217, 1234567890123, 9007199254740993]
        for c in chunks(sorted(set(vals)), 100):
            yield d, n, c


def f_int(ctx, case):
    d, n, vals = case
    return batch_judge(ctx, "int", PRE, [" %s %d" % (d, v) for v in vals],
                       [(enc(Fraction(abs(v)), n, v < 0)[0],) for v in vals], "end\n")


ck.explore("short numerals", g_short, judge)
ck.explore("midpoints", g_mid, judge)
ck.explore("long numerals", g_long, judge)
ck.explore("signs", g_sign, judge)
ck.explore("limits", g_lim, judge)
ck.explore("hex reals", g_hex, f_hex)
ck.explore("syntax", g_syn, f_syn)
ck.explore("lists", g_dup, f_dup)
ck.explore("integers", g_int, f_int)
ck.assume = ["a denormal or underflowing literal may be rejected instead of converted (REAL4 and REAL8 are documented to reject it)",
             "hexadecimal reals with fewer digits than the item has are accepted as low digits or rejected"]
ck.finish("all numerals a.f[e] with a<20 (100), f up to 1 (2) digits and every listed exponent; exact midpoints of neighbouring values and their neighbours for every exponent step; digit strings to 45 digits with the point at each place; overflow/underflow limits; hex reals of every digit position; all strings over {1 . e + 0} to length 6 (7); states are distinct (part, bytes or rejection)",
          validated=ck.n["accepted"] + ck.n["rejected"])

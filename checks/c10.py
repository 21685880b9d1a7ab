"""C10 text equates and string directives: all strings, positions and counts of the string directives and functions, and all
sequences of symbol (re)definitions, against a reference symbol machine."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

ck = Check("C10")
T = ck.thorough
OBS = "obs macro a\n db '[&a]'\nendm\nck macro a\n if a\n db '1'\n else\n db '0'\n endif\nendm\n"
PRE = ".386\n" + OBS + "d segment use32\n"
POST = "d ends\nend\n"


def num(n):
    return "0" if n == 0 else ("-%d" % -n if n < 0 else "%d" % n)


def b(*xs):
    return "".join("[%s]" % x for x in xs).encode("latin1")


# ---- part 1: SUBSTR, INSTR, SIZESTR, CATSTR over all short strings ---------------
STR = ["".join(s) for n in range(5 if T else 4) for s in itertools.product("abA", repeat=n)] + \
      ["".join(s) for s in itertools.product("ab", repeat=4)] + ["abcdefghij", "Aa_0?$@9", "aaaaaaab"]


def g_str():
    L = []
    for s in STR:
        n = len(s)
        pos = sorted({-1, 0, 1, 2, 3, n - 1, n, n + 1, n + 2})
        for p in pos:
            for z in [None] + sorted({-1, 0, 1, 2, n - p, n - p + 1, n - p + 2}):
                ok = 1 <= p <= n and (z is None or (z >= 0 and p + z - 1 <= n))
                r = s[p - 1:][:z] if ok and z is not None else s[p - 1:] if ok else None
                a = "" if z is None else ",%d" % z
                L.append(("k1_ substr <%s>,%d%s\n obs %%k1_" % (s, p, a), b(r) if ok else None))
                # an expression as position, a text macro as source
                L.append(("k0_ textequ <%s>\nk2_ = 1\nk1_ substr k0_,k2_+(%d-1)%s\n obs %%k1_" % (s, p, a), b(r) if ok else None))
                if p != 0:
                    L.append((" obs @SubStr(<%s>,%d%s)" % (s, p, a), b(r) if ok else None))
                    L.append(("k0_ textequ <%s>\nk1_ textequ @SubStr(%%k0_,%d%s)\n obs %%k1_" % (s, p, a), b(r) if ok else None))
        for q in ["", "a", "b", "A", "ab", "aa", "Ab", "bA", "aab", s, s + "a", s[1:], s[:-1]]:
            for p in [None] + sorted({-1, 0, 1, 2, 3, n, n + 1}):
                st = 1 if p is None else p
                err = st > n
                f = 0 if st < 1 or not q else s.find(q, st - 1) + 1
                a = "" if p is None else "%d," % p
                L.append(("k1_ instr %s<%s>,<%s>\n obs %%k1_" % (a, s, q), None if err else b(num(f))))
                L.append(("k0_ textequ <%s>\nk2_ textequ <%s>\nk1_ instr %sk0_,k2_\n obs %%k1_" % (s, q, a), None if err else b(num(f))))
                if (p is None or p > 0) and n and q:
                    a = "," if p is None else a
                    L.append((" obs %%@InStr(%s<%s>,<%s>)" % (a, s, q), None if err else b(num(f))))
        L.append(("k1_ sizestr <%s>\n obs %%k1_" % s, b(num(n))))
        L.append(("k0_ textequ <%s>\nk1_ sizestr k0_\n obs %%k1_" % s, b(num(n))))
        L.append((" obs %%@SizeStr(<%s>)" % s, b(num(n))))
        for u in ("", "b", "ab"):
            L.append(("k1_ catstr <%s>,<%s>\n obs %%k1_" % (s, u), b(s + u)))
            L.append(("k1_ textequ <%s>\nk1_ textequ <%s>,k1_,<%s>,k1_\n obs %%k1_" % (s, u, u), b(u + s + u + s)))
            L.append((" obs @CatStr(<%s>,<%s>,<%s>)" % (s, u, s), b(s + u + s)))
    for x in ((), ("<a>",), ("<>",), ("%1+2",), ("%1+2", "<x>"), ("<x>", "%6/2")):
        r = "".join("3" if i[0] == "%" else i[1:-1] for i in x)
        L.append(("k1_ catstr %s\n obs %%k1_" % ",".join(x), b(r)))
        L.append(("k1_ textequ %s\n obs %%k1_" % ",".join(x), b(r)))
    for bad in ("k1_ catstr 5", "k1_ catstr <a> <b>", "k1_ catstr <a>,,<b>", "k1_ catstr nope_", "k1_ catstr 'a'",
                "k1_ substr <abc>", "k1_ substr 5,1", "k1_ substr <abc>,1,1,1", "k1_ substr <abc>,eax",
                "k1_ substr <abc>,nope_", "k1_ substr 'abc',1", "k1_ instr <abc>", "k1_ instr 1", "k1_ instr 1,<abc>", "k1_ instr <abc>,5", "k1_ instr <abc>,<a>,<b>",
                "k1_ instr nope_,<abc>,<a>", "k1_ instr eax,<abc>,<a>", "k1_ sizestr", "k1_ sizestr 5", "k1_ sizestr <a>,<b>", "k1_ sizestr nope_",
                " obs @SubStr(<abc>)", " obs @SubStr(,1)", " obs @InStr(1,<abc>)", " obs @InStr(1,,<a>)", " obs @SubStr(<abc>,x)"):
        L.append((bad, None))
    yield from chunks(L, 300)


def jstr(ctx, c):
    return batch_judge(ctx, "str", PRE, [x.replace("k1_", "k%d_" % (1000 + i)).replace("k0_", "k%d_" % (3000 + i)).replace("k2_", "k%d_" % (5000 + i))
                                         for i, (x, r) in enumerate(c)], [r for x, r in c], POST)


# ---- part 2: characters with a meaning of their own inside <...> -------------------
LEX = [("a", "a"), (" ", " "), ("!!", "!"), ("!<", "<"), ("!>", ">"), (",", ","), ("<a>", "<a>"), ("<>", "<>"), ("%", "%"), ("&", "&"), (";", ";"),
       ("!a", "a"), ("!,", ","), ("(", "("), ("1", "1"), ("!%", "%"), ("!;", ";"), ("[", "[")]


def g_lex():
    def go():
        for n in (1, 2, 3):
            for t in itertools.product(LEX if n < 3 or T else LEX[:13], repeat=n):
                yield "".join(x for x, _ in t), "".join(y for _, y in t)
    yield from chunks(go(), 100)


def lit(s):
    return "<%s>" % "".join("!" + c if c in "!<>" else c for c in s)


def jlex(ctx, c):
    sts, rf = [], []
    for i, (w, v) in enumerate(c):
        n = "k%d_" % (1000 + i)
        m = "k%d_" % (3000 + i)
        t = ["%s textequ <%s>" % (n, w), "%s sizestr %s" % (m, n), " ck %s eq %d" % (m, len(v)),
             "%s instr %s,%s" % (m, n, lit(v)), " ck %s eq 1" % m]
        e = b"11"
        for p, ch in enumerate(v):
            # each character, seen through SUBSTR and INSTR
            t += ["%sc substr %s,%d,1" % (m, n, p + 1), "%sd instr %sc,%s" % (m, m, lit(ch)), " ck %sd eq 1" % m]
            e += b"1"
        t += ["%sf catstr %s,<Z>,%s" % (m, n, n), "%sg sizestr %sf" % (m, m), " ck %sg eq %d" % (m, 2 * len(v) + 1),
              "%sh instr %sf,<Z>" % (m, m), " ck %sh eq %d" % (m, len(v) + 1)]
        e += b"11"
        if not any(x in v for x in ";\\%"):
            t += ["%si = @SizeStr(<%s>)" % (m, w), " ck %si eq %d" % (m, len(v))]
            e += b"1"
        sts.append("\n".join(t))
        rf.append(e)
    return batch_judge(ctx, "lex", PRE, sts, rf, POST)


# ---- part 3: sequences of definitions ---------------------------------------------
class Stop(Exception):
    """the sequence leaves the judged domain"""


class Err(Exception):
    pass


def ev(st, nm, depth=0):
    """value of a name in an expression"""
    d = st.get(nm)
    if d is None:
        raise Err
    if d[0] == "text":
        t = d[1]
        if t.isdigit():
            return int(t)
        if t in st and depth < 4:
            return ev(st, t, depth + 1)
        if t in NAMES:
            raise Err
        raise Err
    return d[1]


NAMES = ("X", "Y")


def assign(st, nm, v):
    d = st.get(nm)
    if d and d[0] == "text":
        # the name at the start of the line is itself expanded
        if d[1] in NAMES:
            if d[1] == nm:
                raise Stop
            return assign(st, d[1], v)
        if d[1].isdigit() or d[1] == "":
            raise Err
        raise Stop
    if d and d[0] == "equ":
        if d[1] == v:
            raise Stop
        raise Err
    st[nm] = ("var", v)


def equnum(st, nm, v, src):
    d = st.get(nm)
    if d is None:
        st[nm] = ("equ", v)
    elif d[0] == "text":
        st[nm] = ("text", src)
    elif d[1] != v:
        raise Err
    elif d[0] == "var":
        raise Stop


def settext(st, nm, s):
    d = st.get(nm)
    if d and d[0] != "text":
        raise Err
    st[nm] = ("text", s)


def text(st, nm):
    d = st.get(nm)
    if d is None or d[0] != "text":
        raise Err
    t = d[1]
    if t in NAMES and t != nm and st.get(t) and st[t][0] == "text":
        return text(st, t)          # text within text
    return t


def own(st, nm):
    """text whose length matters: not one containing a symbol's name"""
    t = text(st, nm)
    if any(n in t for n in NAMES):
        raise Stop
    return t


def numvar(st, nm, v):
    d = st.get(nm)
    if d and d[0] == "text":
        raise Stop
    if d and d[0] == "equ":
        raise Stop
    st[nm] = ("var", v)


def pct(st, nm):
    d = st.get(nm)
    if d is None:
        raise Err
    if d[0] == "text":
        t = d[1]
        if not t.isdigit():
            raise Stop
        return t
    return num(d[1])


def op_eqname(st, a, c):
    """a EQU c"""
    d = st.get(c)
    if st.get(a) and st[a][0] == "text":
        settext(st, a, c)
        return
    try:
        v = ev(st, c)
    except Err:
        if c in NAMES and a == c:
            raise Stop
        settext(st, a, c)
        return
    equnum(st, a, v, c)


def o_plus(st):
    assign(st, "X", ev(st, "X") + 1)


OPS = [
    ("X = 1", lambda st: assign(st, "X", 1)),
    ("X = 2", lambda st: assign(st, "X", 2)),
    ("X = X + 1", o_plus),
    ("Y = X", lambda st: assign(st, "Y", ev(st, "X"))),
    ("X equ 1", lambda st: equnum(st, "X", 1, "1")),
    ("X equ 2", lambda st: equnum(st, "X", 2, "2")),
    ("X equ Y", lambda st: op_eqname(st, "X", "Y")),
    ("Y equ X", lambda st: op_eqname(st, "Y", "X")),
    ("X equ <1>", lambda st: settext(st, "X", "1")),
    ("X equ <Y>", lambda st: settext(st, "X", "Y")),
    ("Y textequ <ab>", lambda st: settext(st, "Y", "ab")),
    ("Y textequ <2>", lambda st: settext(st, "Y", "2")),
    ("Y catstr Y,<3>", lambda st: settext(st, "Y", text(st, "Y") + "3")),
    ("X textequ Y", lambda st: settext(st, "X", text(st, "Y"))),
    ("Y textequ %X", lambda st: settext(st, "Y", pct(st, "X"))),
    ("X substr Y,1,1", lambda st: settext(st, "X", own(st, "Y")[0] if own(st, "Y") else (_ for _ in ()).throw(Err()))),
    ("X sizestr Y", lambda st: numvar(st, "X", len(own(st, "Y")))),
    ("X instr Y,<3>", lambda st: numvar(st, "X", own(st, "Y").find("3") + 1 if own(st, "Y") else (_ for _ in ()).throw(Err()))),
]


def seen(st, nm):
    """what `obs %name` shows, or None if it is not judged"""
    d = st.get(nm)
    if d is None:
        return None
    if d[0] == "text":
        t = d[1]
        k = 0
        while t in NAMES and k < 4:
            # the text of the text
            e = st.get(t)
            if e is None:
                return t
            if e[0] != "text":
                return t
            t = e[1]
            k += 1
        if k >= 4:
            return None
        return t
    return num(d[1])


def run(seq):
    st = {}
    out = []
    lines = []
    for k, i in enumerate(seq):
        txt, f = OPS[i]
        lines.append(txt)
        try:
            f(st)
        except Err:
            return lines, None, k == len(seq) - 1
        for nm in NAMES:
            s = seen(st, nm)
            if s is None:
                if st.get(nm) and st[nm][0] == "text":
                    raise Stop          # text that names itself
                continue
            d = st[nm]
            t = d[1] if d[0] == "text" else ""
            if t and not t.isdigit():
                # a text naming the other symbol or something else: seen as text
                if t in NAMES and st.get(t):
                    pass
                lines.append(" obs %%%s" % nm)
                out.append(b(s))
            else:
                lines.append(" obs %%%s" % nm)
                out.append(b(s))
                if s and s.isdigit() and int(s) < 256:
                    lines.append(" db %s" % nm)
                    out.append(bytes([int(s) & 255]))
    return lines, b"".join(out), True


def inst(lines, i):
    return "\n".join(re.sub(r"\b([XY])\b", lambda m: m[1].lower() + "k%d_" % i, ln) for ln in lines)


def g_seq():
    n = 5 if T else 4

    def go(pre):
        for i in range(len(OPS)):
            s = pre + (i,)
            try:
                l, r, last = run(s)
            except Stop:
                continue
            yield s
            if r is not None and len(s) < n:
                yield from go(s)
    for w in ((0, 1) if T else (0, 1)):
        yield from ((w, c) for c in chunks(go(()), 120))


WRAP = [(PRE, POST, b"", b""),
        # a jump that grows in the second pass, so that everything is assembled again
        (PRE + " jmp l9_\n", " db 200 dup (0)\nl9_:\n" + POST, None, None)]


def jseq(ctx, case):
    w, c = case
    pre, post, _, _ = WRAP[w]
    sts, rf = [], []
    for i, s in enumerate(c):
        l, r, _ = run(s)
        t = inst(l, i)
        if r is not None:
            r = re.sub(rb"[XY]", lambda m: m[0].lower() + b"k%d_" % i, r)
        sts.append(t)
        rf.append(r)

    def image(r):
        o = r.obj() or b""
        if w and len(o) >= 205:
            return o[5:-200]
        if w and len(o) >= 202:
            return o[2:-200]
        return o
    return batch_judge(ctx, "seq%d" % w, pre, sts, rf, post, image=image)


# ---- part 4: use before definition, values and forms of EQU ------------------------
def g_misc():
    L = []

    def a(t, r):
        L.append((t, r))
    w = lambda *v: b"".join((x & 0xffffffff).to_bytes(4, "little") for x in v)
    a(" dd k1_\nk1_ = 3", w(3))
    a(" dd k1_\nk1_ equ 3", w(3))
    a("k1_ = 1\n dd k1_\nk1_ = 2\n dd k1_\nk1_ = 3\n dd k1_", w(1, 2, 3))
    a("k1_ = 1\n rept 5\n dd k1_\nk1_ = k1_*2\n endm", w(1, 2, 4, 8, 16))
    a("k1_ = 0\n rept 40\nk1_ = k1_+1\n endm\n dd k1_", w(40))
    a("k1_ equ k2_+k3_\nk2_ equ 2\nk3_ = 7\n dd k1_", w(9))
    a("k2_ = 1\nk1_ equ k2_\nk2_ = 2\n dd k1_", w(1))
    a("k2_ = 1\nk1_ equ <k2_>\nk2_ = 2\n dd k1_", w(2))
    a("k2_ = 1\nk1_ textequ %k2_\nk2_ = 2\n dd k1_", w(1))
    a("k2_ textequ <1>\nk1_ equ k2_\nk2_ textequ <2>\n dd k1_", w(1))
    a("k1_ equ 3 +\n dd k1_ 4", w(7))
    a("k1_ equ [eax]\n db 0\n mov ebx,k1_", b"\0\x8b\x18")
    a("k1_ equ eax\n mov ebx,k1_", b"\x8b\xd8")
    a("k1_ equ mov\n k1_ ebx,eax", b"\x8b\xd8")
    a("k1_ equ 'a'\n dd k1_", w(97))
    a('k1_ equ "abc"\n dd k1_', w(0x616263))
    a("k1_ equ 'abcd'\n dd k1_", w(0x61626364))
    a("k1_ equ -1\n dd k1_", w(-1))
    a("k1_ equ 0FFFFFFFFh\n dd k1_", w(-1))
    a("k1_ = 0FFFFFFFFh\n dd k1_", w(-1))
    a("k1_ = -80000000h\n dd k1_", (w(-0x80000000),))
    a("k1_ equ 7 ; comment\n dd k1_", w(7))
    a("k1_ equ nope ; comment\n obs %k1_", b("nope"))
    a("k1_ equ nope  \n obs %k1_", b("nope"))
    a("k1_ equ <nope> ; comment\n obs %k1_", b("nope"))
    a("k1_ equ <a> <b>", None)
    a("k1_ =", None)
    a("k1_ = k1_ + 1", None)
    a("k1_ = nope", None)
    a("k1_ = eax", None)
    a("k1_ = [eax]", None)
    a("k1_ = 1 2", (w(),))
    a("k1_ = 1.5", None)
    a("k1_ = 1 +", None)
    a("k1_ db 1\nk1_ = 2", None)
    a("k1_ db 1\nk1_ equ 2", None)
    a("k1_ db 1\nk1_ textequ <2>", None)
    a("k1_ db 1\nk1_ sizestr <2>", None)
    a("k1_ = 2\nk1_ db 1", None)
    a("k1_ equ 2\nk1_ db 1", None)
    a("k1_ = 2\nk1_:", None)
    a("k1_ macro\nendm\nk1_ equ <2>", None)
    a("k1_ struct\n db 1\nk1_ ends\nk1_ = 2", None)
    a("k1_ struct\n db 1\nk1_ ends\nk1_ textequ <2>", None)
    a("k1_ equ 5\nk1_ equ 5\n dd k1_", w(5))
    a("k1_ equ 5\nk1_ equ 2+3\n dd k1_", w(5))
    a("k1_ equ $\n db 9\nk1_ equ $", None)
    a("k2_ db 7,8\nk1_ equ k2_+1\n mov al,k1_", None)
    L.pop()
    a("k2_ db 7,8\nk1_ equ $-k2_\n dd k1_", b"\7\x08" + w(2))
    a("k1_ = $\n dd $-k1_", w(0))
    a("k1_ = $\n db 1\n db $-k1_\nk1_ = $\n db $-k1_", b"\1\1\0")
    # nested text, to the documented depth
    for n in (1, 2, 5, 18):
        t = "k1_0 textequ <7>\n" + "".join("k1_%d textequ <k1_%d>\n" % (i + 1, i) for i in range(n)) + " dd k1_%d" % n
        a(t, w(7))
    a("k1_ textequ <k1_>\n dd k1_", None)
    a("k1_ textequ <k2_>\nk2_ textequ <k1_>\n dd k1_", None)
    # long values
    for n in (10, 100, 250, 251, 255, 256, 257, 500, 900):
        s = ("x " * n)[:n]
        a("k1_ textequ <%s>\nk2_ sizestr k1_\n dd k2_" % s, w(n))
        a("k1_ textequ <%s>\nk2_ catstr k1_,<y>\nk3_ instr k2_,<y>\n dd k3_" % s, w(n + 1))
        a("k1_ textequ <%sy>\nk2_ substr k1_,%d,1\n obs %%k2_" % (s, n + 1), b("y"))
        a("k1_ textequ <%s>\n dd @SizeStr(%%k1_)" % s, (w(n),))
    # growing, shrinking and growing again (storage is reused)
    a("k1_ textequ <>\n rept 60\nk1_ catstr k1_,<ab>\n endm\nk2_ sizestr k1_\n dd k2_\nk1_ substr k1_,1,3\n obs %k1_\nk1_ catstr k1_,k1_,k1_\n obs %k1_\n"
      "k1_ textequ <>\n obs %k1_\nk1_ catstr <q>,k1_\n obs %k1_", w(120) + b("aba", "abaabaaba", "", "q"))
    # a text as its own source
    for n in range(1, 6):
        for m in range(1, 7 - n):
            a("k1_ textequ <abcdef>\nk1_ substr k1_,%d,%d\n obs %%k1_\nk1_ catstr k1_,<->,k1_\n obs %%k1_" % (n, m),
              b("abcdef"[n - 1:n - 1 + m], "abcdef"[n - 1:n - 1 + m] + "-" + "abcdef"[n - 1:n - 1 + m]))
    # radix
    for rx in (2, 8, 10, 16):
        def r(v):
            s = ""
            while True:
                s = "0123456789ABCDEF"[v % rx] + s
                v //= rx
                if not v:
                    return s
        for v in (0, 1, 7, 9, 12, 255):
            rr = r(v)
            if rx != 16 or rr[0].isdigit():
                a(" .radix %d\nk1_ = %st\nk2_ textequ %%k1_\n obs %%k2_\n .radix 10t" % (rx if False else rx, v), b(rr))
    return L


MISC = g_misc()


def jmisc(ctx, c):
    sts = [t.replace("k1_", "k%d_" % (1000 + i)).replace("k2_", "k%d_" % (3000 + i)).replace("k3_", "k%d_" % (5000 + i)) for i, (t, r) in c]
    return batch_judge(ctx, "misc", PRE, sts, [r for i, (t, r) in c], POST)


ck.explore("string directives and functions", g_str, jstr)
ck.explore("special characters", g_lex, jlex)
ck.explore("definition sequences", g_seq, jseq)
ck.explore("forms of EQU", lambda: chunks(enumerate(MISC), 20), jmisc)
ck.assume += ["redefining a numeric EQU with SIZESTR/INSTR or with the value it already has through '=' is not judged",
              "the value of a redefinable symbol before its first assignment is not judged",
              "text equates that name themselves are only required to be rejected when used"]
ck.finish("all strings to length %d over {a,b,A} with every position/count around every limit for SUBSTR/INSTR/SIZESTR/CATSTR in directive, function, "
          "literal and text-equate form; all sequences of up to 3 special lexemes inside literals; all sequences of up to %d definitions over %d "
          "operations on two symbols with every symbol observed after every step, in one pass and with forced further passes"
          % (4 if T else 3, 5 if T else 4, len(OPS)))

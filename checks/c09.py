"""C09 macros and repeat blocks: parameter substitution templates, argument
forms and macro program trees, compared with a reference expander."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

ck = Check("C09")
T = ck.thorough
PRE = ".386\nd segment use32\n"
POST = "d ends\nend\n"
IDF = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_?@$"
IDC = IDF + "0123456789"


# ---- part 1: substitution in a body line -------------------------------------
class Skip(Exception):
    pass


def subst(line, env):
    """the documented substitution: names outside quotes, names next to & inside quotes; & next to a name vanishes"""
    out = ""
    i = 0
    quote = None
    free = 0                 # text before this position was consumed by the previous parameter
    while i < len(line):
        c = line[i]
        if c in IDF:
            j = i
            while j < len(line) and line[j] in IDC:
                j += 1
            w = line[i:j].lower()
            before = i > 0 and line[i - 1] == "&"
            after = j < len(line) and line[j] == "&"
            mine = before and i - 1 >= free
            if w in env and (not quote or mine or after):
                if mine:
                    out = out[:-1]
                out += env[w]
                if after:
                    j += 1
                free = j
            else:
                if w in env and before and not mine:
                    raise Skip   # one & between two names inside quotes
                out += line[i:j]
            i = j
        elif c.isdigit():
            j = i
            while j < len(line) and line[j] in IDC:
                j += 1
            out += line[i:j]
            i = j
        else:
            if c in "\"'":
                if quote == c:
                    quote = None
                elif not quote:
                    quote = c
            out += c
            i += 1
    return out


PIECES = ["p", "q", "&", "x", " ", "1", "pq", "+"]
# 'X' starts/ends a quoted string in the body
QP = ["p", "q", "&", "x", " ", "1"]


def gen_subst():
    n = 7 if T else 6
    def it():
        for k in range(1, n):
            for c in itertools.product(PIECES, repeat=k):
                yield ("t", "".join(c))
        for k in range(1, n):
            for c in itertools.product(QP, repeat=k):
                s = "".join(c)
                yield ("q", s)
                yield ("d", s)
    seen = set()
    def uniq():
        for x in it():
            if x not in seen:
                seen.add(x)
                yield x
    return chunks(uniq(), 400)


ENV = {"p": "Ab", "q": "7z"}


def ev_subst(ctx, cs):
    st, refs = [], []
    for kind, s in cs:
        try:
            if kind == "t":
                v = subst("<" + s + ">", ENV)[1:-1]
            else:
                q = "'" if kind == "q" else '"'
                v = subst(q + s + q, ENV)[1:-1]
        except Skip:
            ctx.n["not judged"] += 1
            continue
        if kind == "t":
            if "&" in v:       # a left-over & is an operator of its own
                continue
            body = "t1 textequ <%s>\nt2 catstr <'[>,t1,<]'>\n db t2" % s
            v = "[" + v + "]"
        else:
            if v == "":
                continue
            body = " db %s%s%s" % (q, s, q)
        st.append("mm macro p,q\n%s\nendm\n mm Ab,7z" % body)
        refs.append(v.encode())
    if not st:
        return None
    return batch_judge(ctx, "subst", PRE, st, refs, POST)


# ---- part 2: argument forms --------------------------------------------------
# (text in the call, value)
ARGS = [("", None), ("x", "x"), ("x y", "x y"), ("<x>", "x"), ("<x,y>", "x,y"), ("<<x,1>>", "<x,1>"), ("<x!>y>", "x>y"),
        ("<!!>", "!"), ("< x >", " x "), ("<>", ""), ("%2+3", "5"), ("%kk*2", "14"), ("%tt", "tv"), ("tt", "tt"),
        ("ff(3)", "[3]"), ("x!,y", "x,y"), ("%kk", "7"), ("\"a,b\"", "\"a,b\""), ("\"a;b\"", "\"a;b\""), ("-5", "-5"),
        ("[ebx+2]", "[ebx+2]"), ("x(1)", "x(1)"), ("(x)", "(x)"), ("{1,2}", "{1,2}"), ("5 dup (1)", "5 dup (1)"),
        ("ff(<1,2>)", "[1,2]"), ("%-3", "-3"), ("%(kk+1) shl 2", "32"), ("byte ptr x", "byte ptr x"), ("x.y", "x.y")]
APRE = PRE + "kk equ 7\ntt textequ <tv>\nff macro a\nexitm <[a]>\nendm\n"


def join(args):
    return ",".join(args)


SIG = [  # (formal list, function(values or None) -> list of values or None for an error)
    ("a", lambda v: [v[0] or ""]),
    ("a,b", lambda v: [v[0] or "", v[1] or ""]),
    ("a,b:=<dd>", lambda v: [v[0] or "", "dd" if v[1] is None else v[1]]),
    ("a:REQ,b", lambda v: None if v[0] is None else [v[0], v[1] or ""]),
    ("a,b:req", lambda v: None if v[1] is None else [v[0] or "", v[1]]),
    ("a:=<1,2>,b:=<>", lambda v: ["1,2" if v[0] is None else v[0], v[1] or ""]),
    ("a,b:VARARG", "va"),
    ("a:VARARG", "va"),
]


def gen_args():
    def it():
        for si, (f, fn) in enumerate(SIG):
            n = f.count(",") + 1 if "<1,2>" not in f else 2
            for fnm in (0, 1):
                va = fn == "va"
                maxn = n + (2 if va else 0)
                for k in range(0, maxn + 1):
                    pool = ARGS if k <= 2 or T else ARGS[:14]
                    if k > 3:
                        pool = ARGS[:7]
                    for c in itertools.product(pool, repeat=k):
                        if k and c[-1][1] is None and (va or k > 1) and c[-1][0] == "":
                            if va:
                                continue      # a trailing comma before nothing
                        for sp in ((",", "", ""), (" , ", " ", "  ")) if k < 3 else ((",\t", "", " "),):
                            yield si, fnm, c, sp
    return chunks(it(), 400)


def c_vals(c):
    return [x[1] for x in c]


def ev_args(ctx, cs):
    st, refs = [], []
    for si, fnm, c, sp in cs:
        f, fn = SIG[si]
        names = ["a", "b"][:1 if f in ("a", "a:VARARG") else 2]
        vals = [x[1] for x in c]
        if fn == "va":
            k = len(names) - 1
            if fnm == 0 and any(x[0] == "" for x in c[k:]):
                continue
            if fnm and any(x[0] == "" for x in c[k:]):
                continue
            head = [(v or "") for v in vals[:k]]
            head += [""] * (k - len(head))
            ref = head + [",".join(v or "" for v in vals[k:])]
        else:
            ref = fn(vals + [None] * (len(names) - len(vals)))
        if fnm and sp[2] and c and c[-1][0].startswith("ff("):
            sp = (sp[0], sp[1], "")      # blanks between a function call and ) are not judged
        call = sp[1] + sp[0].join(x[0] for x in c) + sp[2]
        if "x!,y" in call and fnm:
            continue
        cat = "t2 catstr <[>,<a>" + "".join(",<|>,<%s>" % n for n in names[1:]) + ",<]>"
        # the values may hold < > ! and quotes: take them through a literal that & substitution fills
        body = "".join("t_%s textequ <%s>\n" % (n, n) for n in names)
        if ref is not None and (any(ch in v for v in ref for ch in "!<>") or any(v == "tt" for v in c_vals(c))):
            # inside <> these would be read again: observe with a quoted string
            if any('"' in v for v in ref):
                continue
            body = ' db "[' + "|".join("&%s&" % n for n in names) + ']"\n'
        elif ref is not None and any("'" in v for v in ref):
            continue
        else:
            body += "t2 catstr <'[>," + ",<|>,".join("t_" + n for n in names) + ",<]'>\n db t2\n"
        if fnm:
            st.append("mm macro %s\n%sexitm <>\nendm\n mm(%s)" % (f, body, call))
        else:
            st.append("mm macro %s\n%sendm\n mm %s" % (f, body, call))
        refs.append(None if ref is None else ("[" + "|".join(ref) + "]").encode())
    return batch_judge(ctx, "args", APRE, st, refs, POST) if st else None


# ---- part 3: program trees ---------------------------------------------------
# A program is a list of statements; reference interpreter below.
# ("db", e)            e: int or parameter name
# ("call", m, arg)     call macro m with one argument (int or parameter name or "")
# ("exitm",)
# ("if", cond, body)   cond: ("eq", e, k) or ("blank", e)
# ("rep", n, body) ("for", [..], body) ("forc", "..", body) ("while", n, body)
# ("goto", l) ("label", l)
# ("def", m, body) ("purge", m) ("inc",) ("dbn",) n counter
# ("loc",)             dd of the local's number, the name ??xxxx
class AsmError(Exception):
    pass


class ExitM(Exception):
    pass


class Goto(Exception):
    def __init__(self, l):
        self.l = l


class Ref:
    def __init__(self, macros):
        self.m = dict(macros)
        self.out = bytearray()
        self.n = 0
        self.loc = 0
        self.depth = 0
        self.steps = 0

    def val(self, e, env):
        if isinstance(e, str):
            e = env.get(e, e)
        if e == "" or e is None:
            return None
        return e

    def seq(self, body, env, base):
        """base: this body may be the target of GOTO"""
        i = 0
        while i < len(body):
            try:
                self.one(body[i], env)
            except Goto as g:
                # labels are looked for in the macro's own lines, outermost nesting only where we look
                if base and any(s == ("label", g.l) for s in body):
                    i = [s for s in range(len(body)) if body[s] == ("label", g.l)][0]
                    continue
                raise
            i += 1

    def one(self, s, env):
        self.steps += 1
        if self.steps > 3000:
            raise AsmError("steps")
        k = s[0]
        if k == "db":
            v = self.val(s[1], env)
            if v is None:
                raise AsmError("blank db")
            if isinstance(v, str):
                raise AsmError("undefined " + v)
            self.out.append(v & 255)
        elif k == "inc":
            self.n += 1
        elif k == "dbn":
            self.out.append(self.n & 255)
        elif k == "loc":
            if "%loc" not in env:
                raise AsmError("no local")
            self.out += ("??%04X" % env["%loc"]).encode()
        elif k == "call":
            if s[1] not in self.m:
                raise AsmError("undefined macro")
            m = self.m[s[1]]
            if m == "purged":
                return
            self.run(m[1], {m[0][0]: self.val(s[2], env)}, True)
        elif k == "exitm":
            raise ExitM
        elif k == "goto":
            raise Goto(s[1])
        elif k == "label":
            pass
        elif k == "if":
            c = s[1]
            v = self.val(c[1], env)
            if c[0] == "eq":
                if v is None:
                    raise AsmError("blank in expression")
                t = v == c[2]
            elif c[0] == "nlt":
                t = self.n < c[1]
            else:
                t = v is None
            if t:
                for x in s[2]:
                    self.one(x, env)
        elif k == "rep":
            for _ in range(s[1]):
                if self.loop(s[2], env):
                    break
        elif k == "while":
            while self.n < s[1]:
                if self.loop(s[2], env):
                    break
        elif k in ("for", "forc"):
            for v in s[1]:
                e = dict(env)
                e["v"] = v
                if self.loop(s[2], e):
                    break
        elif k == "def":
            self.m[s[1]] = ("p",) , s[2]
        elif k == "def2":
            # the outer parameters are replaced in the inner body
            self.m[s[1]] = ("r",), tuple((x[0], "" if x[0] == "db" and x[1] in env and env[x[1]] is None else env.get(x[1], x[1])) for x in s[2])
        elif k == "purge":
            for x in [s[1]]:
                if x not in self.m:
                    raise AsmError("purge of undefined")
                self.m[x] = "purged"
        else:
            raise ValueError(s)

    def loop(self, body, env):
        try:
            self.depth += 1
            if self.depth > 100:
                raise AsmError("nesting")
            self.seq(body, env, True)
        except ExitM:
            return True
        except Goto:
            raise AsmError("goto")
        finally:
            self.depth -= 1
        return False

    def run(self, m, args, counted):
        env = dict(args)
        body = m
        if body and body[0] == "local":
            env["%loc"] = self.loc
            self.loc += 1
            body = body[1:]
        self.depth += 1
        if self.depth > 100:
            raise AsmError("nesting")
        try:
            self.seq(list(body), env, True)
        except ExitM:
            pass
        except Goto:
            raise AsmError("goto")
        self.depth -= 1


def emit(s, ind=" "):
    k = s[0]
    if k == "db":
        return "%sdb %s" % (ind, s[1])
    if k == "inc":
        return ind + "nn = nn + 1"
    if k == "dbn":
        return ind + "db nn"
    if k == "loc":
        return ind + "db '&lc'"
    if k == "call":
        return "%s%s %s" % (ind, s[1], s[2])
    if k == "exitm":
        return ind + "exitm"
    if k == "goto":
        return ind + "goto " + s[1]
    if k == "label":
        return ":" + s[1]
    if k == "if":
        c = s[1]
        h = "if %s eq %d" % (c[1], c[2]) if c[0] == "eq" else "if nn lt %d" % c[1] if c[0] == "nlt" else "ifb <%s>" % c[1]
        return "%s%s\n%s\n%sendif" % (ind, h, "\n".join(emit(x, ind + " ") for x in s[2]), ind)
    h = {"rep": lambda: "repeat %d" % s[1], "while": lambda: "while nn lt %d" % s[1],
         "for": lambda: "for v,<%s>" % ",".join(map(str, s[1])), "forc": lambda: "forc v,<%s>" % "".join(map(str, s[1])),
         "def": lambda: "%s macro p" % s[1], "def2": lambda: "%s macro r" % s[1]}.get(k)
    if h:
        loc = ""
        body = s[2]
        if body and body[0] == "local":
            loc, body = "local lc\n", body[1:]
        return "%s%s\n%s%s%sendm" % (ind, h(), loc, "".join(emit(x, ind + " ") + "\n" for x in body), ind)
    if k == "purge":
        return ind + "purge " + s[1]
    raise ValueError(s)


LEAF = [("db", "p"), ("db", 9), ("call", "mb", "p"), ("call", "mb", 3), ("call", "mb", ""), ("exitm",), ("goto", "lq"),
        ("label", "lq"), ("inc",), ("dbn",), ("loc",), ("purge", "mb"), ("def2", "mb", (("db", "r"), ("db", "p"), ("db", 77))),
        ("call", "ma", 1)]
BB = [(("db", "p"),), (("if", ("blank", "p"), (("exitm",),)), ("db", "p")), ("local", ("loc",), ("inc",)),
      (("if", ("nlt", 3), (("inc",), ("call", "ma", "p"))), ("dbn",)), (), (("rep", 2, (("db", 4), ("exitm",), ("db", 5))), ("db", 6)),
      ]


def comp(leaves, depth):
    """compound statements over bodies of leaves"""
    for b in leaves:
        yield ("rep", 2, b)
        yield ("for", (1, 2), b)
        yield ("if", ("nlt", 2), b)
        yield ("if", ("blank", "p"), b)
        yield ("while", 2, b)
        yield ("forc", (5, 6), b)


def gen_trees():
    loopleaf = LEAF + [("db", "v")]
    bodies = [(a,) for a in loopleaf] + [(a, b) for a in loopleaf for b in loopleaf]
    stm1 = LEAF
    def it():
        n = 4 if T else 3
        for k in range(1, n + 1):
            for c in itertools.product(stm1, repeat=k):
                # LOCAL must be first: give ma a local whenever it prints one
                yield c
        for cmpd in comp(bodies, 1):
            yield (cmpd,)
            for a in stm1:
                yield (a, cmpd)
                yield (cmpd, a)
        if T:
            one = [(a,) for a in loopleaf]
            for c1 in comp(one, 1):
                for c2 in comp([(c1,), (c1, ("dbn",)), (("inc",), c1)], 1):
                    yield (c2,)
                    yield (c2, ("db", 9))
    for body in it():
        big = len(body) == 3 or (len(body) == 2 and any(isinstance(x[-1], tuple) and len(x[-1]) == 2 and isinstance(x[-1][0], tuple) and x[0] != "def2" for x in body))
        for bi in range(len(BB)):
            if big and not T and bi not in (1, 3):
                continue
            yield body, bi


def has(body, what):
    for s in body:
        if isinstance(s, tuple) and s:
            if s == what or s[0] == what:
                return True
            if len(s) == 3 and isinstance(s[2], tuple) and s[0] != "call" and has(s[2], what):
                return True
    return False


def ev_tree(ctx, case):
    body, bi = case
    if has(body, "loc"):
        body = ("local",) + body
    # GOTO with a label inside a nested block, or two equal labels, is left open
    if has(body, "goto") or has(body, ("label", "lq")):
        for s in body:
            if isinstance(s, tuple) and s[0] in ("rep", "for", "if", "while", "forc") and (has(s[2], "goto") or has(s[2], "label")):
                if s[0] == "if" or not (has(s[2], "goto") and has(s[2], "label")):
                    ctx.n["not judged"] += 1
                    return None
        if sum(s == ("label", "lq") for s in body) > 1:
            return None
        for s in body:
            if isinstance(s, tuple) and len(s) == 3 and isinstance(s[2], tuple) and sum(x == ("label", "lq") for x in s[2]) > 1:
                return None
    prog = [("def", "mb", BB[bi]), ("def", "ma", body), ("call", "ma", 2), ("dbn",), ("call", "ma", ""), ("call", "mb", 8)]
    r = Ref({})
    try:
        for s in prog:
            r.one(s, {})
        ref = bytes(r.out)
    except AsmError as e:
        if str(e) == "steps":
            return None
        ref = None
    except (ExitM, Goto):
        ref = None
    if ref is None and (has(body, "while") or has(body, "goto") and has(body, "label")):
        return None       # the loop may not end after an error
    src = PRE + "nn = 0\n" + "\n".join(emit(s) for s in prog) + "\n" + POST
    a = ctx.srv().asm(src, ["-bin", "-nomlib"])
    ctx.n["steps"] += r.steps
    ctx.outcome(ref, tuple(r.m), r.n, r.loc)
    if a.sig:
        return V("tree:" + src, "signal %d" % a.sig, source=src)
    got = (a.obj() or b"") if a.exit == 0 else None
    if got != ref:
        return V("tree:" + src, "gave %s, expected %s" % (got.hex() if got is not None else "an error: " + a.text()[:200],
                 ref.hex() if ref is not None else "an error"), source=src)
    return None


# ---- part 4: macro functions -------------------------------------------------
FUN = [("add1", "exitm %x+1", lambda x: x + 1), ("dbl", "exitm <x+x>", lambda x: x + x),
       ("cnt", "if x eq 0\nexitm <0>\nendif\nexitm %1+cnt(%x-1)", lambda x: x),
       ("sel", "if x gt 2\n exitm <10>\nelse\nexitm <20>\nendif", lambda x: 10 if x > 2 else 20),
       ("lp", "local s\ns = 0\nrepeat x\ns = s + 2\nendm\nexitm %s", lambda x: 2 * x)]
FPRE = PRE + "".join("%s macro x\n%s\nendm\n" % (n, b) for n, b, _ in FUN)


def gen_fun():
    def it():
        for k in range(1, 4 if T else 3):
            for fs in itertools.product(range(len(FUN)), repeat=k):
                for x in range(0, 6):
                    yield fs, x
    return chunks(it(), 100)


def ev_fun(ctx, cs):
    st, refs = [], []
    for fs, x in cs:
        s, v = str(x), x
        ok = True
        for f in fs:
            s = "%s(%s)" % (FUN[f][0], s)
            v = FUN[f][2](v)
        # textual values: dbl gives x+x unevaluated, so only let it be used where precedence cannot matter
        if v > 60 or any(FUN[f][0] == "dbl" for f in fs[:-1]):
            continue
        st.append(" db %s, 3, %s+1, %s, '('" % (s, s, s))
        refs.append(bytes([v, 3, v + 1, v, 40]))
        st.append("nn = %s\nif %s eq %d\n db %s\nelse\n db 255\nendif\n db nn" % (s, s, v, s))
        refs.append(bytes([v, v]))
    return batch_judge(ctx, "fun", FPRE, st, refs, POST) if st else None


# ---- part 5: misuse and limits ----------------------------------------------
PN = [a + b for a in "zyvwkuqtgh" for b in "abcdefghijklmnopqrstuvwxyz0123456789_"]
PN = [x for x in PN if x not in ("va", "be", "eq", "k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7")]


def table():
    t = []
    E = None
    def a(src, ref):
        t.append((src, ref))
    a("mm macro a:REQ\n db 1\nendm\n mm", E)
    a("mm macro a,b:req\n db 1\nendm\n mm 1", E)
    a("mm macro a:VARARG,b\n db 1\nendm\n mm 1", E)
    a("mm macro a:=5\n db 1\nendm\n mm 1", E)
    a("mm macro a:FOO\n db 1\nendm\n mm 1", E)
    a("mm macro 5\n db 1\nendm", E)
    a("mm macro a b\n db 1\nendm", E)
    a(" endm", E)
    a(" exitm", E)
    a(" goto x", E)
    a("mm macro\n goto nolab\nendm\n mm", E)
    a("mm macro\n goto\nendm\n mm", E)
    a("mm macro\n exitm 5\nendm\n db mm()", E)
    a("mm macro\n db 1", E)
    a(" repeat 2\n db 1", E)
    a(" repeat\n db 1\n endm", E)
    a(" repeat ext\n db 1\n endm", E)
    a(" for\n db 1\n endm", E)
    a(" for x\n db 1\n endm", E)
    a(" for x,1\n db 1\n endm", E)
    a(" for x,<1> 2\n db 1\n endm", E)
    a(" forc x\n db 1\n endm", E)
    a(" purge nosuch", E)
    a(" while nosuch\n endm", b"")
    t[-1] = (" while nosuch\n db 1\n endm", E)
    a("mm macro a\n db a\nendm\n mm 5, 6", b"\x05")          # only a warning
    a("mm macro a\n db a\nendm\n mm 5,", b"\x05")
    a("mm macro\n db 1\nendm\n mm\n purge mm\n mm", b"\x01")
    a("mm macro\n db 1\nendm\n purge mm\nmm macro\n db 2\nendm\n mm", b"\x02")
    a("mm macro\n db 1\nmm macro\n db 2\nendm\nendm\n mm\n mm", b"\x01\x02")
    a("mm macro a\nendm\n mm 1\n mm 2", b"")
    a(" repeat -1\n db 1\n endm", b"")
    a(" repeat 0\n db 1\n endm", b"")
    a(" for x,<>\n db 1\n endm", b"")
    a(" for x,<1,2,,3>\n ifnb <x>\n db x\n else\n db 9\n endif\n endm", b"\1\2\x09\3")
    a(" for x:=<7>,<1,,3>\n db x\n endm", b"\1\7\3")
    a(" for x:req,<1,,3>\n db 1\n endm", E)
    a(" for x,< 1 , <2,3> , 4 >\n db x\n endm", b"\1\2\3\4")
    a(" irp x,<1,2>\n db x\n endm", b"\1\2")
    a(" irpc x,123\n db x\n endm", b"\1\2\3")
    a(" forc x,<a b>\n db '&x&'\n endm", b"a b")
    a(" forc x,<a!>b>\n db '&x&'\n endm", b"a>b")
    a(" forc x,12 34\n db x\n endm", b"\1\2")
    a(" rept 3\n db 1\n endm", b"\1\1\1")
    a("nn = 0\n while nn lt 4\n nn = nn + 1\n if nn eq 3\n exitm\n endif\n db nn\n endm\n db nn", b"\1\2\3")
    a("mm macro a\n for x,<a>\n for y,<1,2>\n db x*10+y\n endm\n endm\nendm\n mm <1,2>", bytes([11, 12, 21, 22]))
    a("mm macro a:vararg\n for x,<a>\n db x\n endm\nendm\n mm 1,2,3", b"\1\2\3")
    a("mm macro a:vararg\n local n\n n = 0\n for x,<a>\n n = n + 1\n endm\n exitm %n\nendm\n db mm(1,2,3), mm(), mm(<1,2>)", bytes([3, 0, 2]))
    a("mm macro a\n ifnb <a>\n db a\n endif\nendm\n mm\n mm <>\n mm 4", b"\4")
    a("mm macro a\n local b, c\nb equ a\nc equ a+1\n db b,c\nendm\n mm 1\n mm 5", b"\1\2\5\6")
    a("mm macro a\n db 1\n exitm\n db 2\nendm\n mm", b"\1")
    a("mm macro a\n ;; hidden\n db a ; a\nendm\n mm 3", b"\3")
    a("mm macro a\n db a\\\n,a\nendm\n mm 3", b"\3\3")
    a("mm macro a\nif a\n mm a-1\nelse\n db 5\nendif\nendm\n mm 9", b"\5")
    for n in (1, 50, 126, 127, 128, 150):
        a("mm macro a\nif a eq 0\n db 5\n exitm\n endif\n mm %%a-1\nendm\n mm %d" % n, b"\5" if n < 128 else E)
    for n in (1, 10, 60, 120):
        for k in (1, 40, 200, 400):
            a("mm macro a\nif a eq 0\nexitm <0>\nendif\nnn = mm(%%a-1)+%s\nexitm %%nn\nendm\n dd mm(%d)" % ("+".join(["1"] * k), n), (n * k).to_bytes(4, "little"))
    for n in (1, 9, 18, 19, 20, 25):
        a("mm macro a\nif a\n mm a-1\nelse\n db 5\nendif\nendm\n mm %d" % n, b"\5" if n < 20 else E)
    a("mm macro\n mm\nendm\n mm", E)
    a("mm macro\nexitm <mm()>\nendm\n db mm()", E)
    a("MM macro AbC\n db aBc\nendm\n mm 3", b"\3")
    for n in (1, 2, 9, 10, 11, 36, 37, 38, 39, 40, 41, 64, 100, 127, 128, 129, 200, 254, 255):
        ps = PN[:n]
        a("mm macro %s\n db %s,%s,%s+%s\nt1 textequ <%s&%s>\n t2 catstr <'>,t1,<'>\n db t2\nendm\n mm %s" % (
            ",".join(ps), ps[0], ps[n - 1], ps[n // 2], ps[0], ps[n - 1], ps[0], ",".join("%d" % (i % 7) for i in range(n))),
          bytes([0, (n - 1) % 7, (n // 2) % 7]) + b"%d0" % ((n - 1) % 7))
    for n in (256, 257, 300):
        ps = PN[:n]
        a("mm macro %s\n db 1\nendm" % "\\\n,".join(ps), E)
    for n in (1, 2, 100, 255, 256, 257, 300):
        a("mm macro a\n db %s\nendm\n mm 5" % ",".join(["a"] * n), b"\5" * n)
    for n in (1, 20, 200, 254):
        a("mm macro a\nlocal %s\n db '&zl0','&zl%d'\nendm\n mm 5" % ("\nlocal ".join("zl%d" % i for i in range(n)), n - 1),
          None if n > 254 else ("??0000??%04X" % (n - 1)).encode())
    a("mm macro a\nlocal %s\n db 1\nendm\n mm 5" % ("\nlocal ".join("zl%d" % i for i in range(256))), E)
    for n in (255, 256, 65535, 65536, 65537):
        a("mm macro\nlocal l\nt textequ <l>\nendm\n repeat %d\n mm\n endm\nt2 catstr <'>,t,<'>\n db t2" % n, b"??%04X" % (n - 1))
    return t


def ev_table(ctx, c):
    src, ref = c
    s = PRE + src + "\n" + POST
    a = ctx.srv().asm(s, ["-bin", "-nomlib"])
    ctx.n["steps"] += 1
    ctx.outcome(src)
    got = (a.obj() or b"") if a.exit == 0 else None
    if a.sig or got != ref or (ref is None and "A1901" in a.text()) or "General Failure" in a.text():
        return V("table:" + src[:150], "gave %s, expected %s" % (a.sig or (got.hex() if got is not None else "an error: " + a.text()[:200]),
                 ref.hex() if ref is not None else "an error"), source=s)


# ---- part 6: which line GOTO finds ---------------------------------------------
LNAMES = ["l", "l2", "l_", "L", "la", "kl", "lA2", "l?", "_l", "l$2"] + (["x", "l22", "@l"] if T else [])
LFORM = [":%s", " :%s", "\t:%s", ":%s ; c", ":%s  "] + ([":%s ;; c", ": %s"] if T else [])


def gen_goto():
    k = 0
    for n in (1, 2, 3):
        for names in itertools.product(LNAMES, repeat=n):
            low = [x.lower() for x in names]
            if len(set(low)) < n:
                continue             # equal macro labels aren't judged
            for tgt in LNAMES:
                for kind in ("fwd", "bwd", "if"):
                    k += 1
                    forms = tuple(LFORM[(k // 3 ** j + j) % len(LFORM)] for j in range(n))
                    yield (kind, tgt, names, forms)


def ev_goto(ctx, c):
    kind, tgt, names, forms = c
    low = [x.lower() for x in names]
    at = low.index(tgt.lower()) if tgt.lower() in low else None
    body = ["mm macro a"]
    lab = [f % n for f, n in zip(forms, names)]
    parts = list(range(1, len(names) + 1))
    if kind == "bwd":
        for l, p in zip(lab, parts):
            body += [l, " db %d" % p]
        body += ["nn = nn + 1", "if nn lt 3", "goto " + tgt, "endif", " db 99"]
        ref = bytes(parts) + bytes(parts[at:] if at is not None else []) * 2 + b"\x63"
    else:
        body += ["if a", "goto " + tgt, "endif"] if kind == "if" else [" goto " + tgt]
        body.append(" db 77")
        for l, p in zip(lab, parts):
            body += [l, " db %d" % p]
        ref = bytes(parts[at:]) if at is not None else b""
    body += ["endm", "nn = 0", " mm 1"]
    if at is None:
        ref = None
    s = PRE + "\n".join(body) + "\n" + POST
    a = ctx.srv().asm(s, ["-bin", "-nomlib"])
    ctx.n["steps"] += 1
    ctx.outcome(kind, at, len(names))
    got = (a.obj() or b"") if a.exit == 0 else None
    if a.sig or got != ref or "General Failure" in a.text():
        return V("goto:%s:%s:%s" % (kind, tgt, ",".join(lab).replace(" ", "~").replace("\t", "~")), "gave %s, expected %s" % (a.sig or (got.hex() if got is not None else "an error: " + a.text()[:200]),
                 ref.hex() if ref is not None else "an error"), source=s)


ck.explore("goto", gen_goto, ev_goto)
ck.explore("table", table, ev_table)
ck.explore("subst", gen_subst, ev_subst)
ck.explore("args", gen_args, ev_args)
ck.explore("fun", gen_fun, ev_fun)
ck.explore("trees", gen_trees, ev_tree)
ck.assume += ["one & shared by two parameter names inside a quoted string, a left-over & outside quotes, GOTO into or out of a nested block and equal macro labels are not judged",
              "blank items of VARARG lists are not judged"]
ck.finish("all body lines over the piece alphabets, all argument-form tuples per signature, all macro bodies up to the length bound times inner macros, all function compositions, limits table, all tuples of up to three macro labels over names that are prefixes of each other x GOTO target x {forward, backward, inside IF}")

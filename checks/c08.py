"""C08 conditional assembly: every directive sequence up to a bound is
assembled and compared with a reference pushdown machine."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

ck = Check("C08")

# ---------------------------------------------------------------- reference --
# directive: (family, outcome) family in IF, ELSEIF, ELSE, ENDIF
# outcome True/False/"err" (evaluating the condition is an error)


class Machine:
    """taken = some branch of this block has been selected already"""

    def __init__(self):
        self.st = []          # [on, taken, else_seen]
        self.skip = 0         # nesting inside a skipped region
        self.error = False

    def active(self):
        return not self.skip and all(s[0] for s in self.st)

    def step(self, fam, out):
        if fam == "IF":
            if not self.active():
                self.skip += 1
                return
            if out == "err":
                self.error = True
                return
            self.st.append([bool(out), bool(out), False])
        elif fam == "ELSEIF":
            if self.skip:
                return
            if not self.st or self.st[-1][2]:
                self.error = True
                return
            t = self.st[-1]
            if t[1]:
                t[0] = False          # condition is not evaluated
            else:
                if out == "err":
                    self.error = True
                    return
                t[0] = t[1] = bool(out)
        elif fam == "ELSE":
            if self.skip:
                return
            if not self.st or self.st[-1][2]:
                self.error = True
                return
            t = self.st[-1]
            t[2] = True
            t[0] = not t[1]
            t[1] = True
        else:
            if self.skip:
                self.skip -= 1
                return
            if not self.st:
                self.error = True
                return
            self.st.pop()


BASE = [("IF 0", "IF", False), ("IF 1", "IF", True), ("ELSEIF 0", "ELSEIF", False),
        ("ELSEIF 1", "ELSEIF", True), ("ELSEIF undefd", "ELSEIF", "err"), ("ELSE", "ELSE", None),
        ("ENDIF", "ENDIF", None)]

PRE = """.386
.model flat
lab_a equ 5
txt_a textequ <abc>
mac_a macro
endm
st_a struct
m1 dd ?
st_a ends
.data
"""

# every condition kind, each with a true and a false form
COND = []


def cond(text, val):
    COND.append((text, val))


for e, v in [("1", True), ("0", False), ("-1", True), ("lab_a", True), ("lab_a-5", False), ("lab_a EQ 5", True),
             ("lab_a LT 5", False), ("80000000h", True), ("1 SHL 31", True), ("0FFFFFFFFh+1-100000000h", False),
             ("(2 GT 1) AND (1 GT 2)", False), ("NOT 0", True), ("dvar2-dvar1", True), ("dvar1-dvar1", False),
             ("100000000h", True), ("8000000000000000h", True), ("sizeof st_a - 4", False)]:
    cond("IF " + e, v)
    cond("IFE " + e, not v)
for s, v in [("lab_a", True), ("undef_q", False), ("mac_a", True), ("txt_q", False), ("st_a", True), ("dvar1", True),
             ("later_l", False), ("st_a.m1", True), ("st_a.m2", False), ("", False)]:
    cond("IFDEF " + s, v)
    cond("IFNDEF " + s, not v)
for s, v in [("<>", True), ("< >", True), ("<\t >", True), ("<a>", False), ("< x >", False), ("<,>", False), ("<!>>", False)]:
    cond("IFB " + s, v)
    cond("IFNB " + s, not v)
for a, b, cs, ci in [("<a>", "<a>", True, True), ("<a>", "<A>", False, True), ("<a>", "<b>", False, False),
                     ("<>", "<>", True, True), ("<a>", "<a >", False, False), ("<abc>", "<ab>", False, False),
                     ("<ab>", "<abc>", False, False), ("<aZ9_>", "<Az9_>", False, True), ("<>", "< >", False, False),
                     ("txt_a", "<abc>", True, True), ("<[>", "<{>", False, False), ("<@>", "<`>", False, False)]:
    cond("IFIDN %s, %s" % (a, b), cs)
    cond("IFDIF %s, %s" % (a, b), not cs)
    cond("IFIDNI %s, %s" % (a, b), ci)
    cond("IFDIFI %s, %s" % (a, b), not ci)

DEPTH = 8 if ck.thorough else 7


def valid_prefixes(depth):
    """all sequences whose proper prefixes are error free"""
    stack = [()]
    while stack:
        s = stack.pop()
        yield s
        if len(s) == depth:
            continue
        m = Machine()
        for k in s:
            m.step(BASE[k][1], BASE[k][2])
        if m.error:
            continue
        for k in range(len(BASE)):
            if k == 4 and not (m.st and not m.skip):
                continue
            stack.append(s + (k,))


def run_ref(items):
    """items: list of (text, fam, outcome) or int byte; -> (bytes, error)"""
    m = Machine()
    out = []
    for it in items:
        if isinstance(it, int):
            if m.active():
                out.append(it)
        else:
            m.step(it[1], it[2])
            if m.error:
                return None
    if m.st or m.skip:
        return None
    return bytes(out)


def body(items):
    return "\n".join(" db %d" % it if isinstance(it, int) else it[0] for it in items) + "\n"


def wrap(ctxname, text, items):
    files = {}
    ref = run_ref(items)
    if ctxname == "main":
        src = PRE + "dvar1 db 0F0h\ndvar2 db 0F1h\n" + text
    elif ctxname == "macro":
        src = PRE + "dvar1 db 0F0h\ndvar2 db 0F1h\nmm macro\n" + text + "endm\n mm\n db 0F4h\n mm\n"
        if ref is not None:
            ref = ref + b"\xf4" + ref
    elif ctxname == "rept":
        src = PRE + "dvar1 db 0F0h\ndvar2 db 0F1h\nrept 2\n" + text + "endm\n"
        if ref is not None:
            ref = ref * 2
    elif ctxname == "inc":
        src = PRE + "dvar1 db 0F0h\ndvar2 db 0F1h\ninclude i.inc\n"
        files["i.inc"] = text
    src += " db 0F2h\nlater_l db 0F3h\nend\n"
    if ref is not None:
        ref = b"\xf0\xf1" + ref + b"\xf2\xf3"
    return src, files, ref


def judge(ctx, label, src, files, ref):
    r = ctx.srv().asm(src, ["-bin", "-nomlib"], files=files)
    ctx.n["steps"] += src.count("\n")
    got = r.obj() if r.exit == 0 else None
    if r.sig:
        got = "signal %d" % r.sig
    ctx.outcome(label[0], got)
    if got == ref:
        ctx.n["accepted" if ref is not None else "rejected"] += 1
        ctx.sample({"src": src, "bytes": got})
        return None
    want = "rejection" if ref is None else ref.hex()
    return V(label[0] + ":" + label[1], "assembled to %s, reference machine says %s" % (
        got.hex() if isinstance(got, bytes) else (got or "an error: " + r.text()[:200]), want),
        source=src, files=files, console=r.text())


def seqs():
    for s in valid_prefixes(DEPTH):
        yield ("main", s)
    d2 = DEPTH - 2
    for c in ("macro", "rept", "inc"):
        for s in valid_prefixes(d2):
            if c != "macro" or True:
                yield (c, s)


def interleave(dirs):
    items = [1]
    for i, k in enumerate(dirs):
        items += [BASE[k], 2 + i]
    return items


def f_seq(ctx, case):
    c, s = case
    items = interleave(s)
    src, files, ref = wrap(c, body(items), items)
    return judge(ctx, (c, "/".join(BASE[k][0] for k in s)), src, files, ref)


def conds():
    # structure x condition kind, ELSEIF forms included
    for i, (t, v) in enumerate(COND):
        if t.startswith("IF "):
            pass
        for sh in range(4):
            yield ("c1", i, sh)
    step = 1 if ck.thorough else 7
    for i in range(len(COND)):
        for j in range(len(COND)):
            if (i * len(COND) + j) % step == 0 or COND[i][0].split()[0] != COND[j][0].split()[0] and i % 3 == j % 3:
                yield ("c2", i, j)


def f_cond(ctx, case):
    k, i, j = case
    t, v = COND[i]
    I = (t, "IF", v)
    EI = lambda x: ("ELSE" + x[0], "ELSEIF", x[1])
    if k == "c1":
        items = {0: [1, I, 2, BASE[6], 3],
                 1: [1, I, 2, BASE[5], 3, BASE[6], 4],
                 2: [1, BASE[0], 2, EI(COND[i]), 3, BASE[5], 4, BASE[6], 5],
                 3: [1, BASE[1], 2, EI(COND[i]), 3, BASE[5], 4, BASE[6], 5]}[j]
    else:
        items = [1, I, 2, EI(COND[j]), 3, BASE[5], 4, BASE[6], 5]
    src, files, ref = wrap("main", body(items), items)
    return judge(ctx, (k, t + "|" + (str(j) if k == "c1" else COND[j][0])), src, files, ref)


MAXN = 20


def deep():
    # nesting depth up to the documented limit: each level taken or not, with a
    # branch of each kind at the innermost level
    for d in range(1, MAXN + 1):
        for off in [None] + list(range(d)):
            for tail in ((), (5,), (2, 5), (3, 5), (5, 6, 1, 5)):
                yield (d, off, tail)


def tails():
    # on the way out of a nest, every pair of branch directives at every level
    for d in range(1, MAXN + 1):
        for inner in ("1", "0", "E", "1else"):
            for lvl in range(d):
                for a in ((5,), (2,), (3,), ()):
                    for b in ((5,), (2,), (3,), ()):
                        if a + b:
                            yield (d, inner, lvl, a + b)


def f_tails(ctx, case):
    d, inner, lvl, tail = case
    items = [1]
    n = 2
    for i in range(d):
        if inner == "E":           # each level is inside the ELSE of the one above
            items += [BASE[0], BASE[5], n] if i < d - 1 else [BASE[1], n]
        elif inner == "1else":
            items += [BASE[0], BASE[3], n]
        else:
            items += [BASE[1 if i < d - 1 or inner == "1" else 0], n]
        n += 1
    for i in range(d):
        if i == lvl:
            for k in tail:
                items += [BASE[k], n]
                n += 1
        items += [BASE[6], n]
        n += 1
    items = [x if not isinstance(x, int) else x & 0xff for x in items]
    src, files, ref = wrap("main", body(items), items)
    return judge(ctx, ("tails", "%d/%s/%d/%s" % case), src, files, ref)


def f_deep(ctx, case):
    d, off, tail = case
    items = [1]
    n = 2
    for i in range(d):
        items += [BASE[0 if off == i else 1], n]
        n += 1
    if (5, 6, 1, 5) == tail:
        pass
    for k in tail:
        items += [BASE[k], n]
        n += 1
    for i in range(d):
        items += [BASE[6], n]
        n += 1
        if i < d - 1 and i % 2 == 0:
            items += [BASE[5], n]
            n += 1
    items = [x if not isinstance(x, int) else x & 0xff for x in items]
    src, files, ref = wrap("main", body(items), items)
    return judge(ctx, ("deep", "%d/%s/%s" % case), src, files, ref)


# EXITM / nested macro calls inside conditionals
EX = BASE[:4] + [BASE[5], BASE[6], ("EXITM", "EXITM", None)]


def exseqs():
    """all bodies that are well-formed as written (balanced, one ELSE last)"""
    depth = 8 if ck.thorough else 7

    def rec(s, st):
        if not st and s:
            yield s
        if len(s) == depth:
            return
        for k in range(len(EX)):
            fam = EX[k][1]
            if fam == "IF":
                if len(st) + len(s) + 1 <= depth - 1:
                    yield from rec(s + (k,), st + (0,))
            elif fam in ("ELSEIF", "ELSE"):
                if st and not st[-1]:
                    yield from rec(s + (k,), st[:-1] + (1 if fam == "ELSE" else 0,))
            elif fam == "ENDIF":
                if st:
                    yield from rec(s + (k,), st[:-1])
            elif not st or True:
                yield from rec(s + (k,), st)
    for x in rec((), ()):
        if 6 in x:
            yield x


def f_ex(ctx, s):
    """a macro body with EXITM, called inside a taken branch of the caller: on
    EXITM the conditionals the macro opened are closed and nothing after it in
    the body counts."""
    m = Machine()
    out = [1]
    n = 2
    lines = [" db 1"]
    done = False
    bad = False
    # pass 1: what the machine does up to the first active EXITM
    for k in s:
        t, fam, o = EX[k]
        if fam == "EXITM":
            lines.append("EXITM")
            if not done and m.active():
                done = True
        else:
            lines.append(t)
            if not done:
                m.step(fam, o)
                if m.error:
                    bad = True
                    done = True
        lines.append(" db %d" % n)
        if not done and m.active():
            out.append(n)
        n += 1
    if bad:
        ref = None
    else:
        o = bytes(out)
        ref = b"\x40" + o + b"\x41" + o + b"\x43\x44"
    src = (".386\n.model flat\nmm macro\n" + "\n".join(lines) + "\nendm\n.data\n db 40h\nIF 1\n mm\n db 41h\n"
           "IF 1\n mm\nELSE\n db 42h\nENDIF\n db 43h\nELSE\n mm\n db 45h\nENDIF\n db 44h\nend\n")
    return judge(ctx, ("exitm", "/".join(EX[k][0] for k in s)), src, {}, ref)


ck.explore("sequences", seqs, f_seq)
ck.explore("conditions", conds, f_cond)
ck.explore("deep nests", deep, f_deep)
ck.explore("branches on the way out", tails, f_tails)
ck.explore("exitm", exseqs, f_ex)
ck.assume = ["skipped regions are only required to balance IF/ENDIF: an ill-formed ELSE inside text that is itself skipped is outside the property"]
ck.finish("every directive sequence of length <= %d whose proper prefixes are well-formed, in main file; <= %d in macro, repeat block and include; every condition kind in IF and ELSEIF position and in pairs; nests up to depth %d; macro bodies with EXITM. Distinct = distinct (part, emitted bytes or rejection)." % (DEPTH, DEPTH - 2, MAXN),
          states=len(ck.outcomes), transitions=ck.n["steps"])

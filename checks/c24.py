"""C24 equivalent ways of writing a module assemble to the same bytes: every module of a catalogue x every rewriting at every place of it. The
rewritings keep the meaning: lines moved into an include file, wrapped in a true conditional, a repeat block, a macro; comments, blank lines,
white space, continued lines, letter case of reserved words; insertion of unrelated statements; and pairs of them. The object file, the exit status and the messages must not change."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from corpus import *

ck = Check("C24", variants=("plain",))
T = ck.thorough
WORDS = set(open(os.path.join(HARN, "words.txt")).read().split()) - {"code", "data", "const", "stack", "fardata", "name", "text"}    # (names of segments)
OPTS = [["-bin"], ["-elf"], ["-coff"], ["-omf"], ["-elf64"], ["-win64"], ["-mz"], ["-pe"], ["-win64", "-archAVX"], ["-omf", "-Cp"]]

# ---------------------------------------------------- the shape of a module's lines --
MAC = re.compile(r"^\s*(?:[^\s:]+:\s*)?(?:%\s*)?(?:(?:[\w@$?]+\s+)?macro\b|(?:rept|repeat|irp|irpc|for|forc|while)\b)", re.I)
ENDM = re.compile(r"^\s*endm\b", re.I)
IF = re.compile(r"^\s*%?\s*if(?:1|2|e|b|nb|def|ndef|dif|difi|idn|idni)?\b", re.I)
ENDIF = re.compile(r"^\s*endif\b", re.I)
ELSE = re.compile(r"^\s*else\w*\b", re.I)
COMM = re.compile(r"^\s*comment\s+(\S)", re.I)
END = re.compile(r"^\s*end(\s|$)", re.I)
STRUC = re.compile(r"^\s*(?:[\w@$?.]+\s+(?:struct|struc|union)\b|(?:struct|struc|union)\b)", re.I)
ENDS = re.compile(r"^\s*(?:[\w@$?.]+\s+)?ends\b", re.I)
NOTMAC = re.compile(r"^\s*(?:%?\s*exitm|goto\b|:\w|local\b|%?\s*include\b|endm\b|comment\b|\.?err|%?\s*echo|%?\s*%?out\b)|@line|@file|__line__|@@|@b\b|@f\b", re.I)


def bare(l):
    """the line without strings and comment (for a look at its structure)"""
    out, q = "", None
    for c in l:
        if q:
            if c == q:
                q = None
                out += "'"
            continue
        if c in "'\"":
            q = c
            out += "'"
            continue
        if c == ";":
            break
        out += c
    return out


class Shape(object):
    def __init__(self, src):
        self.lines = src.replace("\r\n", "\n").rstrip("\x1a\n").split("\n")
        n = len(self.lines)
        self.mac, self.cond, self.hold, self.struc = [0] * (n + 1), [0] * (n + 1), [False] * (n + 1), [0] * (n + 1)
        self.els = [False] * n
        self.proc = [0] * (n + 1)
        m = c = st = pr = 0
        com = None
        cont = False
        self.end = n
        for i, l in enumerate(self.lines):
            b = bare(l)
            self.mac[i], self.cond[i], self.hold[i], self.struc[i], self.proc[i] = m, c, bool(com) or cont, st, pr
            if re.match(r"^\s*[\w@$?.]+\s+proc\b", l, re.I):
                pr = 1
            elif re.match(r"^\s*[\w@$?.]+\s+endp\b", l, re.I):
                pr = 0
            if com:
                if com in l:
                    com = None
                continue
            x = COMM.match(b)
            if x and not cont:
                com = x.group(1)
                if com in l[l.find(com) + 1:]:
                    com = None
                continue
            r = b.rstrip()
            was = cont
            cont = r.endswith("\\") or r.endswith(",") or r.count("{") > r.count("}") or r.count("(") > r.count(")") or r.count("<") > r.count(">")
            if was:
                continue
            if ENDM.match(b):
                m -= 1
            elif MAC.match(b):
                m += 1
            elif IF.match(b):
                c += 1
            elif ENDIF.match(b):
                c -= 1
            elif m == 0 and STRUC.match(b):
                st += 1
            elif m == 0 and st and ENDS.match(b):
                st -= 1
            elif m == 0 and END.match(b) and self.end == n:
                self.end = i
            if ELSE.match(b):
                self.els[i] = True
        self.mac[n], self.cond[n], self.hold[n], self.struc[n] = m, c, bool(com) or cont, st

    def cut(self, i):
        return self.mac[i] == 0 and not self.hold[i]

    def ranges(self, every):
        """(i, j): lines i..j-1 form a block that is balanced in macros and conditionals"""
        e = self.end
        for i in range(e):
            if not self.cut(i):
                continue
            for j in range(i + 1, e + 1):
                if not (every or j == e or i == 0 or j - i <= 2):
                    continue
                if self.cut(j) and self.cond[j] == self.cond[i] and min(self.cond[i:j + 1]) == self.cond[i] and \
                        not any(self.els[k] and self.cond[k] == self.cond[i] for k in range(i, j)):
                    yield i, j


# ---------------------------------------------------- the rewritings --
def ind(ls, i):
    return ls[i:i + 1]


def blockify(kind, sh, i, j):
    """lines i..j-1 in a block of the given kind; returns (source, files) or None"""
    ls = sh.lines
    body = ls[i:j]
    if kind == "include":
        return "\n".join(ls[:i] + ["include z.inc"] + ls[j:]), {"z.inc": "\n".join(body) + "\n"}
    if kind == "include2":
        h = (i + j) // 2
        if not sh.cut(h) or sh.cond[h] != sh.cond[i]:
            h = i
        return "\n".join(ls[:i] + ["include z.inc"] + ls[j:]), {"z.inc": "\n".join(ls[i:h] + [" include y.inc"]) + "\n", "y.inc": "\n".join(ls[h:j])}
    if kind == "if":
        return "\n".join(ls[:i] + ["if 1"] + body + ["else", " garbage garbage", "endif"] + ls[j:]), {}
    if kind == "ifelse":
        return "\n".join(ls[:i] + ["ifdef zz_never_defined", " %&garbage", "if 1", "endif", "else"] + body + ["endif"] + ls[j:]), {}
    # blocks that pass the text through a macro: the macro processor looks at these lines in another way
    if any(NOTMAC.search(bare(l)) for l in body) or any(sh.hold[i:j]):
        return None
    if kind == "macro":
        return "\n".join(ls[:i] + ["zzm macro"] + body + ["endm", " zzm"] + ls[j:]), {}
    if kind == "macro2":
        return "\n".join(ls[:i] + ["zzm macro"] + body + ["endm", "zzn macro", " zzm", "endm", " zzn"] + ls[j:]), {}
    if kind == "rept":
        return "\n".join(ls[:i] + ["rept 1"] + body + ["endm"] + ls[j:]), {}
    if kind == "irp":
        return "\n".join(ls[:i] + ["irp zzi,<1>"] + body + ["endm"] + ls[j:]), {}
    if kind == "while":
        return "\n".join(ls[:i] + ["zzw = 1", "while zzw", "zzw = 0"] + body + ["endm"] + ls[j:]), {}


BLOCKS = ["include", "include2", "if", "ifelse", "macro", "macro2", "rept", "irp", "while"]
# an unrelated statement before line i
INSERT = {
    "blank": "\n\n", "comment": " ; a comment \\ with 'x <", "block": "comment ~ a b c\n mov x,y\n ' < ~ tail\n", "if0": "if 0\n mov foo bar ' \n if 1\n else\n endif\nendif",
    "var": "zzv = 5", "text": "zzt textequ <a,b>", "macrodef": "zzq macro zza,zzb:=<1>\n local zzc\nzzc: mov zza,zzb\n endm", "list": ".nolist\n.list", "emptymac": "zzq macro\n endm\n zzq",
    "rept0": "rept 0\n foo bar\nendm", "emptyinc": "include e.inc", "purge": "zzq macro\nendm\npurge zzq", "ifdef": "ifndef zz1\nzz1 = 1\nendif",
    "fun": "zzu macro zza\n exitm <zza>\nendm\nzzt catstr <x>,zzu(3)", "catstr": "zzt catstr <a>,%(1+2)\nzzn sizestr zzt", "typedef": "zzty typedef dword",
    "struct": "zzs struct\nzza dd ?\nzzs ends", "record": "zzr record zzra:3,zzrb:5", "ctx": "pushcontext all\npopcontext all", "irp": "irp zzi,<1,2>\nendm",
}
TEXTY = re.compile(r"^\s*(?:%?\s*echo|%?\s*%?out\b|title|subttl|subtitle|comment|\.?err|include|includelib|page|option|name\b)|macro\b|<|@line|textequ|catstr|equ\b|%", re.I)


INSN0 = re.compile(r"^\s*(?:mov\w*|enter|lods|stos|movs|cmps|scas|ins|outs|v\w+|[a-z]{2,5})\s+(?:byte|word|dword|qword|real[48])\b", re.I)
DATA = re.compile(r"^\s*(?:[\w@$?]+\s+)?(?:db|dw|dd|dq|dt|byte|word|dword|qword|real[48]|proto|invoke|proc)\b", re.I)


def split_safe(l):
    """the positions of white space outside strings, brackets and comment"""
    q, out, seen = None, [], False
    for k, c in enumerate(l):
        if q:
            if c == q:
                q = None
            continue
        if c in "'\"":
            q = c
        elif c == ";":
            break
        elif c in " \t":
            if seen:
                out.append(k)
            continue
        seen = True
    while out and not bare(l[out[-1]:]).strip() and "'" not in l[out[-1]:] and '"' not in l[out[-1]:]:
        out.pop()
    return out


def case_of(l, how):
    out, q, k = "", None, 0
    for x in re.finditer(r"[A-Za-z_@$?][\w@$?]*|\d[\w.]*|.", l):
        t = x.group()
        if q:
            if t == q:
                q = None
        elif t in "'\"":
            q = t
        elif t == ";":
            return out + l[x.start():]
        elif t.lower() in WORDS:
            t = t.upper() if how == "up" else t.lower() if how == "low" else "".join(c.upper() if n & 1 else c.lower() for n, c in enumerate(t))
        out += t
    return out


def line_edits(sh, i):
    """rewritings of one line: (name, text)"""
    l = sh.lines[i]
    b = bare(l)
    if not b.strip() or sh.hold[i] or sh.hold[i + 1]:
        return
    yield "lead", "\t  " + l
    w = re.findall(r"[\w@$?.]+", b)
    if TEXTY.search(b) or not any(x.lower().lstrip(".") in WORDS for x in w[:2]):
        return      # (white space counts in the arguments of a macro)
    yield "trail", l + (" \t" if b != l and ";" in l else "  \t ; it's <a \"comment")
    sp = split_safe(l)
    if sp:
        yield "tabs", "".join("\t" if k in sp else c for k, c in enumerate(l))
        yield "wide", "".join(" \t  " if k in sp else c for k, c in enumerate(l))
    if sh.mac[i] == 0:
        for k in sp:
            if l[:k].strip() and not l[:k].rstrip().endswith(","):
                yield "cont%d" % k, l[:k] + " \\\n  " + l[k:]
    for m in re.finditer(r",", bare(l)):
        if DATA.match(b) and not INSN0.match(b) and bare(l) == l.rstrip() and sh.mac[i] == 0 and l[:m.start()].count("(") == l[:m.start()].count(")"):
            yield "comma%d" % m.start(), l[:m.end()] + " ; split\n\t" + l[m.end():]
    for how in ("up", "low", "mix"):
        t = case_of(l, how)
        if t != l:
            yield how, t


# ---------------------------------------------------- the oracle --
MSG = re.compile(r"\b((?:Fatal )?[Ee]rror A\d+|Warning A\d+)")


def one(ctx, src, files, opts, var="plain"):
    f = dict(FILES)
    f.update(files)
    f["e.inc"] = ""
    r = ctx.srv(var).asm(src + "\n", list(opts) + ["-nomlib"], files=f)
    o = {k: norm(k, v) for k, v in r.files.items() if k in ("t.o", "t.obj", "t.BIN", "t.EXE", "t.bin", "t.exe")}
    return r, (r.exit, o, tuple(sorted(MSG.findall(r.text()))))


# sources whose lines cannot be told apart by looking at them (text macros that hold directives), or that ask for the place they are at
ODD = {"EXPANS33.ASM", "EXPANS38.ASM", "EXPANS17.ASM", "MACRO20.ASM", "ENDDIR2.ASM", "PREDEF.ASM", "CONDASM1.ASM", "EXPANS4.ASM", "EXPANS26.ASM", "EXPANS30.ASM"}
MODS = {}
for k, v in DIRTY.items():
    MODS[k] = v
for k, v in CORPUS.items():
    if os.path.basename(k).upper() not in ODD:
        MODS["r:" + os.path.basename(k)] = v
SHAPES = {}


def base(ctx, key):
    """(options, shape, result) of a module of the catalogue"""
    c = ctx.__dict__.setdefault("bases", {})
    if key not in c:
        c[key] = None
        src = MODS[key]
        sh = Shape(src)
        best = []
        for o in OPTS:
            r, x = one(ctx, "\n".join(sh.lines), {}, o)
            if r.exit == 0 and not r.sig:
                best.append((o, sh, x))
        c[key] = best
    return c[key]


def judge(ctx, case):
    key, what, i, j = case
    b = base(ctx, key)
    if not b:
        ctx.n["not assembled alone"] += 1
        return
    vs = []
    for n, (o, sh, want) in enumerate(b if T else b[:1]):
        var = "plain"
        files = {}
        ls = sh.lines
        todo = []
        if what in BLOCKS:
            x = blockify(what, sh, i, j)
            if x is None:
                ctx.n["not applicable"] += 1
                continue
            todo.append((what, x[0], x[1], "plain"))
            if T and what in ("include", "macro", "rept"):
                s2 = Shape(x[0])
                for w2 in ("if", "include2"):
                        y = blockify(w2, s2, 0, s2.end) if s2.cut(s2.end) else None
                        if y:
                            todo.append((what + "+" + w2, y[0], dict(list(x[1].items()) + list(y[1].items())), "plain")) if not (w2 == "include2" and what == "include") else None
        elif what in INSERT:
            todo.append((what, "\n".join(ls[:i] + [INSERT[what]] + ls[i:]), {}, "plain"))
        elif what == "line":
            for nm, t in line_edits(sh, i):
                todo.append((nm, "\n".join(ls[:i] + [t] + ls[i + 1:]), {}, "plain"))
        elif what in ("ALLUP", "ALLLOW", "ALLMIX"):
            todo.append((what, "\n".join(l if TEXTY.search(l) else case_of(l, what[3:].lower()) for l in ls), {}, "plain"))
        elif what == "ALLTAB":
            todo.append((what, "\n".join(l if TEXTY.search(l) or sh.hold[k] else "  " + "".join("\t" if q in set(split_safe(l)) else ch for q, ch in enumerate(l)) for k, l in enumerate(ls)), {}, "plain"))
        elif what == "CRLF":
            todo.append((what, "\r\n".join(ls) + "\r", {}, "plain"))
        for nm, src, files, var in todo:
            r, got = one(ctx, src, files, o, var)
            ctx.n["assemblies"] += 1
            ctx.outcome(key, nm, i, j, tuple(o))
            ctx.sample(src[:1500])
            if got != want:
                d = "exit status %s" % got[0] if got[0] != want[0] else "other messages: %s instead of %s" % (got[2][:6], want[2][:6]) if got[1] == want[1] else "other bytes"
                vs.append(V("%s:%s:%s-%s:%s" % (key, nm, i, j, "".join(o)), "%s: %s" % (d, r.text()[:300]), source=src, files={k: v for k, v in files.items()}, original="\n".join(ls), opts=o))
    return vs or None


def keys(quick=60):
    for k in MODS:
        if not k.startswith("r:") or MODS[k].count("\n") <= (120 if T else quick):
            yield k


def shape(k):
    if k not in SHAPES:
        SHAPES[k] = Shape(MODS[k])
    return SHAPES[k]


def g_blocks():
    for k in keys(42):
        sh = shape(k)
        for i, j in sh.ranges(T or len(sh.lines) <= 14):
            for w in BLOCKS:
                if k.startswith("r:") and not T and (w in ("include2", "ifelse", "irp", "macro2", "while") or j - i == 2) and not (i == 0 and j == sh.end):
                    continue
                yield k, w, i, j


NOSTRUC = ("typedef", "struct", "record", "ctx", "macrodef", "emptymac", "purge", "fun", "irp", "rept0", "var", "text", "catstr", "ifdef")


def g_insert():
    for k in keys(42):
        sh = shape(k)
        for i in range(sh.end + 1):
            if sh.cut(i) and i < len(sh.lines) + 1 and (i == sh.end or True):
                for w in INSERT:
                    if sh.struc[i] and w in NOSTRUC or w == "struct" and sh.proc[i]:
                        continue
                    if w in ("var", "record") and k in ("ctx",):
                        continue        # (numbers are read with another radix there)
                    if k.startswith("r:") and not T and w in ("ifdef", "irp", "purge", "emptymac", "catstr", "record", "list", "rept0", "typedef", "var"):
                        continue
                    yield k, w, i, i


def g_lines():
    for k in keys():
        for i in range(shape(k).end + 1):
            if i < len(shape(k).lines):
                yield k, "line", i, i
        for w in ("ALLUP", "ALLLOW", "ALLMIX", "ALLTAB", "CRLF"):
            yield k, w, 0, 0


ck.explore("blocks", g_blocks, judge)
ck.explore("insertions", g_insert, judge)
ck.explore("lines", g_lines, judge)
ck.finish("every rewriting of a module yields its object file, exit status and messages", validated=ck.n["assemblies"])

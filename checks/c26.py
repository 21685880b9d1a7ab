"""C26 line numbers: all arrangements of instructions, macros, includes, repeat blocks, procedures, generated statements and segment
switches up to a length, in COFF and OMF; the line table of the object, read as a debugger reads it, against the known layout."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
import objfmt

ck = Check("C26")
T = ck.thorough
HEAD = [".386", ".model flat, stdcall", "ext proto", "ex1 proto :dword", "m1 macro", " mov eax, 1", " mov eax, 2", "endm", "m2 macro", " m1", " nop", "endm", "m3 macro", "", "endm", "mseg macro", " nop", "tt segment use32 'CODE'", " nop", "tt ends", " nop", " nop", "endm", ".code"]
HEADS = {"full": HEAD, "short": [".code"], "32": [".386", ".model flat, stdcall", ".code"]}
INC = {"a.inc": ("nop\n", [(1, 1)]),
       "b.inc": ("\n; text\n mov eax, 3\n\n nop\n", [(3, 5), (5, 1)]),
       "c.inc": ("c1 equ 1\n", []),
       "d.inc": ("\n" * 23 + " nop\n m1\n nop\n", [(24, 1), (25, 10), (26, 1)])}


class Skip(Exception):
    pass


class Prog:
    """source lines and, per segment, the code each line stands for: (offset, size, file, line, exact)"""
    def __init__(self, ops, head=HEAD):
        self.L = list(head)
        self.seg = "_TEXT"
        self.at = {"_TEXT": 0}
        self.code = {"_TEXT": []}
        self.proc = None        # (number, has prologue, body begun)
        self.np = 0
        self.procs = []
        self.depth = 0
        self.begun = True
        self.inproc = False
        for o in ops:
            self.op(o)
        if self.proc:
            self.op("endp")
        if self.seg != "_TEXT":
            self.op("ends")
        self.L.append("end")

    def put(self, size, line=None, file="t.asm"):
        line = line or len(self.L)
        if not self.begun:           # the prologue comes with the first line of the body
            self.begun = True
            n = self.proc[1]
            if n:
                self.code[self.seg].append((self.at[self.seg], n, "t.asm", (self.proc[2], len(self.L))))
                self.at[self.seg] += n
        if size:
            self.code[self.seg].append((self.at[self.seg], size, file, line))
            self.at[self.seg] += size

    def op(self, o):
        L = self.L
        if o == "i":
            L.append(" mov eax, 7")
            self.put(5)
        elif o == "lab":
            L.append("x%d: nop" % len(L))
            self.put(1)
        elif o == "blank":
            L.append("; text")
        elif o == "blank20":
            L.extend(["; text"] * 20)
        elif o == "long":
            L.append(" mov eax, \\")
            L.append("  5")
            self.put(5, (len(L) - 1, len(L)))
        elif o == "m1":
            L.append(" m1")
            self.put(10)
        elif o == "m2":
            L.append(" m2")
            self.put(11)
        elif o == "m3":
            L.append(" m3")
        elif o == "rep":
            L.extend([" repeat 2", " nop", " endm"])
            self.put(2, (len(L) - 2, len(L)))
        elif o == "jfar":            # grows in a later pass
            k = len(L)
            L.append(" jmp y%d" % k)
            self.put(5)
            L.append(" db 200 dup (90h)")
            self.code[self.seg].append((self.at[self.seg], 200, "t.asm", None))
            self.at[self.seg] += 200
            L.append("y%d: nop" % k)
            self.put(1)
        elif o == "many":
            for _ in range(300):
                L.append(" nop")
                self.put(1)
        elif o == "big":
            L.append(" db 10000h dup (90h)")
            self.put(0)
            self.code[self.seg].append((self.at[self.seg], 65536, "t.asm", None))
            self.at[self.seg] += 65536
        elif o == "db":
            L.append(" db 90h, 90h")
            self.put(0)
            self.code[self.seg].append((self.at[self.seg], 2, "t.asm", None))
            self.at[self.seg] += 2
        elif o == "mseg":
            if self.proc or self.seg != "_TEXT":
                raise Skip
            L.append(" mseg")
            self.put(1)
            self.code.setdefault("tt", []).append((self.at.setdefault("tt", 0), 1, "t.asm", len(L)))
            self.at["tt"] += 1
            self.put(2)
        elif o.endswith(".inc"):
            self.inproc |= bool(self.proc and INC[o][1])
            L.append("include " + o)
            for ln, z in INC[o][1]:
                self.put(z, ln, o)
        elif o == "inv":
            L.append(" invoke ext")
            self.put(5)
        elif o == "inv1":
            L.append(" invoke ex1, 1")
            self.put(7)
        elif o == "if":
            L.append(" .if eax")
            self.put(4)
            L.append(" nop")
            self.put(1)
            L.append(" .endif")
        elif o == "while":
            L.append(" .while eax")
            self.put(2)
            L.append(" nop")
            self.put(1)
            L.append(" .endw")
            self.put(4)
        elif o == "seg":
            if self.proc or self.seg != "_TEXT":
                raise Skip
            L.append("tt segment use32 'CODE'")
            self.seg = "tt"
            self.at.setdefault("tt", 0)
            self.code.setdefault("tt", [])
        elif o == "ends":
            if self.proc or self.seg == "_TEXT":
                raise Skip
            L.append("tt ends")
            self.seg = "_TEXT"
        elif o == "data":
            if self.proc or self.seg != "_TEXT":
                raise Skip
            L.extend([".data", " dd 1", ".code"])
        elif o in ("proc", "procl", "proca"):
            if self.proc:
                raise Skip
            self.np += 1
            L.append("p%d proc%s" % (self.np, " a:dword" if o == "proca" else ""))
            self.proc = (self.np, {"proc": 0, "procl": 6, "proca": 3}[o], len(L))
            self.begun = False
            self.pkind = o
            if o == "procl":
                L.append(" local v:dword")
            self.procs.append((self.np, self.seg, self.at[self.seg], len(L)))
        elif o == "ret":
            if not self.proc:
                raise Skip
            L.append(" ret")
            self.put({"proc": 1, "procl": 2, "proca": 4}[self.pkind])
        elif o == "endp":
            if not self.proc or not self.begun:
                raise Skip
            L.append("p%d endp" % self.proc[0])
            self.proc = None
        else:
            raise ValueError(o)


def omf_lines(b):
    """-> {segment name: [(offset, file, line)]}, images of the segments"""
    i = 0
    names, segs, out, img = [""], [None], {}, {}
    file = None
    while i < len(b):
        ty, n = b[i], struct.unpack_from("<H", b, i + 1)[0]
        d = b[i + 3:i + 3 + n - 1]
        assert sum(b[i:i + 3 + n]) & 255 == 0 or b[i + 2 + n] == 0, "checksum"
        i += 3 + n
        big = ty & 1

        def idx(k):
            return (d[k], k + 1) if d[k] < 128 else ((d[k] & 127) << 8 | d[k + 1], k + 2)
        if ty == 0x80:
            file = d[1:1 + d[0]].decode("latin1")
        elif ty == 0x96:
            k = 0
            while k < len(d):
                names.append(d[k + 1:k + 1 + d[k]].decode("latin1"))
                k += 1 + d[k]
        elif ty & 0xfe == 0x98:
            k = 1 if d[0] >> 5 else 4
            k += 4 if big else 2
            j, k = idx(k)
            segs.append(names[j])
        elif ty & 0xfe == 0x94:
            g, k = idx(0)
            s, k = idx(k)
            assert s, "LINNUM for segment 0"
            while k < len(d):
                ln = struct.unpack_from("<H", d, k)[0]
                of = struct.unpack_from("<I" if big else "<H", d, k + 2)[0]
                k += 6 if big else 4
                out.setdefault(segs[s], []).append((of, file, ln))
            assert k == len(d), "LINNUM record length"
    return out


def coff_lines(b):
    o = objfmt.coff(b)
    out = {}
    bf, order, file, ffile = {}, [], None, {}
    for y in o.syms:
        if y.name == ".file":
            file = b"".join(y.aux).rstrip(b"\0").decode("latin1")
            order.append(y)
        elif y.name == ".bf":
            bf[y.idx - 2] = struct.unpack_from("<H", y.aux[0], 4)[0]
            ffile[y.idx - 2] = file
    for k, y in enumerate(order):
        nx = order[k + 1].idx if k + 1 < len(order) else None
        if y.value and nx and y.value != nx:
            raise objfmt.Bad(".file record %d links to %d, the next one is %d" % (y.idx, y.value, nx))
    funcs = []
    for j, s in enumerate(o.secs):
        L = []
        cur = None
        lnp = struct.unpack_from("<I", b, 20 + 40 * j + 28)[0]
        for k, (a, n) in enumerate(s.lines):
            if n == 0:
                y = o.symidx.get(a)
                if y is None or a not in bf:
                    raise objfmt.Bad("line table of %s refers to symbol %d" % (s.name, a))
                if y.sec is not s:
                    raise objfmt.Bad("line table of %s refers to a function of another section" % s.name)
                cur = a
                fn = y
                funcs.append([y, 1, 0])
                if struct.unpack_from("<I", y.aux[0], 8)[0] != lnp + 6 * k:
                    raise objfmt.Bad("function %s points to line numbers at %x, they are at %x" % (y.name, struct.unpack_from("<I", y.aux[0], 8)[0], lnp + 6 * k))
                tot = struct.unpack_from("<I", y.aux[0], 4)[0]
            else:
                if cur is None:
                    raise objfmt.Bad("line without function")
                if not fn.value <= a < fn.value + max(tot, 1):
                    raise objfmt.Bad("line at %x is outside its function %s (%x, size %d)" % (a, fn.name, fn.value, tot))
                L.append((a, ffile[cur], bf[cur] + (0 if n == 0x7fff else n)))
                funcs[-1][1] += 1
                funcs[-1][2] = L[-1][2]
        out[s.name] = L
    # the records of each function: .bf behind the symbol, then .lf and .ef; the chain of functions
    for k, (y, n, last) in enumerate(funcs):
        q = [o.symidx.get(y.idx + z) for z in (2, 4, 5)]
        if [x and x.name for x in q] != [".bf", ".lf", ".ef"]:
            raise objfmt.Bad("function %s is followed by %s" % (y.name, [x and x.name for x in q]))
        tag, tot, lp, nxt = struct.unpack_from("<IIII", y.aux[0])
        want = funcs[k + 1][0].idx if k + 1 < len(funcs) else 0
        if tag != y.idx + 2 or nxt != want or struct.unpack_from("<I", q[0].aux[0], 12)[0] != (want and want + 2):
            raise objfmt.Bad("function %s: .bf at %d, next function %d, expected %d and %d" % (y.name, tag, nxt, y.idx + 2, want))
        if q[0].value != y.value or q[1].value != n or q[2].value != y.value + tot:
            raise objfmt.Bad("function %s at %x+%x, %d lines: .bf %x .lf %d .ef %x" % (y.name, y.value, tot, n, q[0].value, q[1].value, q[2].value))
        if n > 1 and struct.unpack_from("<H", q[2].aux[0], 4)[0] != last:
            raise objfmt.Bad("function %s: .ef says line %d, the last one is %d" % (y.name, struct.unpack_from("<H", q[2].aux[0], 4)[0], last))
    return out


SEGN = {"-win64": {"_TEXT": ".text", "tt": "tt"}, "-coff": {"_TEXT": ".text", "tt": "tt"}, "-omf": {"_TEXT": "_TEXT", "tt": "TT"}}


def judge(ctx, cs):
    fmt, dbg, hd, ops = cs
    try:
        p = Prog(ops, HEADS[hd])
        if fmt != "-omf" and p.inproc:
            raise Skip       # a function of COFF has one file
    except Skip:
        return None
    src = "\n".join(p.L) + "\n"
    key = "%s%s:%s:%s" % (fmt[1:], dbg, hd, "+".join(ops))
    r = ctx.srv().asm(src, ["-nomlib", fmt, dbg], files={n: t for n, (t, x) in INC.items() if n in ops})
    ctx.n["programs"] += 1
    if r.exit or r.sig:
        return V(key, "refused: %s" % (r.sig or r.text()[:300]), source=src)
    try:
        tab = (omf_lines if fmt == "-omf" else coff_lines)(r.obj())
    except (objfmt.Bad, AssertionError, IndexError, struct.error) as x:
        return V(key, "object: %s" % x, source=src)
    out = []
    for sg, code in p.code.items():
        L = tab.get(SEGN[fmt][sg], [])
        want = [c for c in code if c[3] is not None]
        ctx.outcome(fmt, len(L), len(want), tuple(o for o in ops if o[0] in "psma"))
        for (a, f, n), (a2, f2, n2) in zip(L, L[1:]):
            if a2 < a or a2 == a and (f, n) != (f2, n2) and False:
                return V(key, "%s: addresses not ascending: %x line %d, then %x line %d" % (sg, a, n, a2, n2), source=src)
        for a, z, f, ln in want:
            ctx.n["lines"] += 1
            hit = [x for x in L if x[0] <= a]
            got = hit[-1] if hit else None
            lo, hi = ln if isinstance(ln, tuple) else (ln, ln)
            if got is None or got[1].lower() != f or not lo <= got[2] <= hi:
                return V(key, "%s:%x is %s line %s, the table says %s; table %s" % (sg, a, f, lo if lo == hi else "%d-%d" % (lo, hi), "nothing" if got is None else "%s line %d (from %x)" % (got[1], got[2], got[0]), L[:8]), source=src)
        for a, f, n in L:
            c = [x for x in code if x[0] <= a < x[0] + x[1]]
            lo, hi = (c[0][3] if isinstance(c[0][3], tuple) else (c[0][3],) * 2) if c and c[0][3] else (0, -1)
            if any((sg, a, n) == (q[1], q[2], q[3]) for q in p.procs) and f.lower() == "t.asm":
                continue             # the line of PROC itself
            if not c or f.lower() != c[0][2] or not lo <= n <= hi:
                return V(key, "%s: the table has %s line %d at %x, where is %s" % (sg, f, n, a, c), source=src)
    return None


ALPHA = ["i", "blank", "m1", "m2", "rep", "a.inc", "b.inc", "d.inc", "inv", "inv1", "if", "while", "proc", "procl", "proca", "ret", "endp", "seg", "ends", "data", "lab", "long", "db", "c.inc", "m3", "blank20", "mseg", "jfar"]
SMALL = ["i", "m1", "b.inc", "d.inc", "if", "proc", "procl", "ret", "endp", "seg", "ends", "blank", "mseg"]


W64 = ["i", "blank", "rep", "b.inc", "if", "while", "proc", "ret", "endp", "lab", "long", "data", "blank20", "jfar"]


def gen():
    for n in range(1, 6 if T else 5):
        for ops in itertools.product(ALPHA if n <= (4 if T else 3) else SMALL, repeat=n):
            for fmt in ("-coff", "-omf"):
                yield (fmt, "-Zd", "full", ops)
        if n <= (4 if T else 3):
            for ops in itertools.product(W64, repeat=n):
                yield ("-win64", "-Zd", "short", ops)
                yield ("-coff", "-Zd", "32", ops)
    for n in (1, 2, 3) if T else (1, 2):
        for ops in itertools.product(ALPHA, repeat=n):
            for fmt in ("-coff", "-omf"):
                for z in ("-Zi", "-Zi5") if fmt == "-coff" else ("-Zi",):
                    yield (fmt, z, "full", ops)
    # long tables, offsets beyond 64 kB
    for n in range(1, 6 if T else 5):
        for ops in itertools.product(["big", "many", "i", "b.inc", "proc", "endp", "mseg", "jfar"], repeat=n):
            if "big" in ops or "many" in ops:
                for fmt in ("-coff", "-omf"):
                    yield (fmt, "-Zd", "full", ops)


ck.explore("arrangements", gen, judge)
ck.assume += ["the line of code generated by a continued line or a repeat block is any of its lines; that of a prologue any line from PROC to the first line of the body"]
ck.finish("all sequences of statements up to the length bound x {COFF, OMF}; every line's code looked up in the table by its address, every record of the table looked up in the code",
          states=ck.n["lines"], transitions=ck.n["programs"])

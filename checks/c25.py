"""C25 the listing shows the object file: every sequence of statement kinds up to a bounded length is assembled with a listing, in each format;
every listed line's offset and bytes are compared with the section contents read back from the object, the listed source with the source,
the symbol tables with the object's and with each other."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
import objfmt

ck = Check("C25", variants=("plain",))
T = ck.thorough

# (source line, what the listing shows of it); H = hidden, None = the same text; segment switches start with ">"
H = object()
K = {
    "nop": ["\tnop"], "movi": [">c.code", " mov eax,12345678h ; comment"], "db": ["$d db 1,2,3"], "dbl": ["$d db 1,2,3,4,5,6,7,8,9,10,11,12,13,14"], "dup": ["$d dw 4 dup (7)"], "bigdup": [" db 300 dup (5)"],
    "unin": ["$d db 5 dup (?)"], "str": [" db 'a;b', \"it's\" ; c"], "dd": [" dd off1"], "real": [" real8 1.5"], "lab": [">c.code", "$l: nop"], "alone": [">c.code", "$l:"], "jfwd": [">c.code", " jmp fwd1"], "jbk": [">c.code", " jmp off1"],
    "jcc": [">c.code", " jz fwd1"], "call": [">c.code", " call fwd1"], "align": [" align 2"], "org": [" org $+3"], "var": ["$v = 5"], "equ": ["$v equ 77h"], "tequ": ["$v textequ <nop>"], "equt": ["$v equ <some text which is long enough to fill more lines>"],
    "alias": ["$v equ off1"], "blank": [""], "com": [" ; just a comment"], "comb": [" comment ~ x", "y z", " ~ w"], "if0": ["if 0", (" db 99", H), "else", " db 98", "endif"], "if1": ["if 1", " db 97", "endif"],
    "rept": ["rept 2", " db 3", " nop", "endm"], "mac": ["$m macro a", " db a", " exitm", "endm", " $m 6"], "fun": ["$m macro a", " exitm <a>", "endm", (" db $m(4)", " db 4")], "inc": ["include i.inc"],
    "nolist": [(".nolist", H), (" db 55h", H), ".list"], "all": [".listall", ">c.code", ".if eax==3", " nop", ".endif"], "hll": [">c.code", ".while eax", " dec eax", ".endw"], "cont": [">c.code", (" mov eax, \\", " mov eax,  5"), ("   5", H)],
    "proc": [">c.code", "$p proc", " ret", "$p endp"],
    "procl": [">c.code", "$p proc c uses esi $a:dword", " local $b:dword", " mov eax,$a", " ret", "$p endp"], "procu": [">c.code", "$p proc c uses esi edi", " ret", "$p endp"],
    "procx": [">c.code", "$p proc c $a:dword", ".if eax==$a", " ret", ".endif", " ret", "$p endp"], "inv": [">c.code", "$f proto c :dword", " invoke $f,1"], "inva": [".listall", ">c.code", "$f proto c :dword,:dword", " invoke $f,addr off1,eax"],
    "pubs": [" public off1"], "seg": ["$s segment", " db 1", "$s ends"], "lall": [".listall"],
    "struc": ["$s struct", "$sa db ?", "$sb dd 5", "$s ends", "$i $s <1,2>"], "rec": ["$r record $ra:3,$rb:5", "$i $r <1,2>"], "data": [">d.data", " dd 11223344h"],
    "code": [">c.code"], "err": [" dw 3 dup (1,2 dup (5))"], "expand": ["% db 3"], "imp": [" db off1 - off1"], "echo": ["% echo x"], "local": [">c.code", " mov ax,word ptr [eax]"],
    "typed": ["$t typedef ptr dword"], "texp": ["$t textequ <db>", (" $t 5", " db 5")], "page": [" page 60,100"], "title": [" title a b"], "listmac": [".listmacroall", "$m macro", " ;; x", " if 0", " db 2", " endif", " db 1", "endm", " $m"],
    "nolm": [".nolistmacro", "$m macro", " db 1", "endm", " $m"], "lif": [".listif", "if 0", " db 99", "else", " db 98", "endif"],
}
FMT = {     # options, head, the object's section of each segment
    "coff": (["-coff"], [".686", ".xmm", ".model flat,c"], {"d": ".data", "c": ".text"}),
    "elf": (["-elf"], [".686", ".xmm", ".model flat,c"], {"d": ".data", "c": ".text"}),
    "omf": (["-omf"], [".686", ".model small,c"], {"d": "_DATA", "c": "_TEXT"}),
    "omf32": (["-omf"], [".686", ".model flat,c"], {"d": "_DATA", "c": "_TEXT"}),
    "win64": (["-win64"], [], {"d": ".data", "c": ".text"}),
    "elf64": (["-elf64"], [], {"d": ".data", "c": ".text"}),
}
INC = {"i.inc": " db 44h\n\tdw 4545h ; in\n"}
LEFT = re.compile(r"^(?:([0-9A-F]{8})(?:  ([0-9A-F]*))? *(?:= ([0-9A-F]+))? *| = ?(.*)| > *| *)$", re.S)


def module(fmt, kinds):
    """[(source line, listed text or None, segment)]"""
    o, head, secs = FMT[fmt]
    out = [(h, h, None) for h in head]
    seg = "d"
    out.append((".data", ".data", "d"))
    out.append(("off0 db 9", "off0 db 9", "d"))
    out.append((".code", ".code", "c"))
    out.append(("off1: nop", "off1: nop", "c"))
    seg = "c"
    for n, k in enumerate(kinds):
        for l in K[k]:
            l, shown = l if isinstance(l, tuple) else (l, l)
            if k == "lif" and "lif" in kinds[:n] and " db 99" in l:
                shown = l
            if k == "seg":
                l = shown = l.replace("$s segment", "$s segment use32") if fmt in ("coff", "elf", "omf32") else l
            if l[0:1] == ">":
                seg, l = l[1], l[2:]
                shown = l
            sub = lambda t: re.sub(r"\$(?=[a-z])", "n%d" % n, t)
            if fmt in ("win64", "elf64"):
                sub = lambda t: re.sub(r"\$(?=[a-z])", "n%d" % n, t).replace("dd off1", "dq off1").replace("[eax]", "[rax]").replace(" proc c ", " proc ").replace("uses esi edi", "uses rsi rdi").replace("uses esi", "uses rsi").replace("proto c ", "proto ").replace(":dword,:dword", ":qword,:qword").replace("addr off1,eax", "addr off1,rax")
            l = sub(l)
            shown = None if shown is H else sub(shown)
            if fmt == "elf64" and shown and re.search(r"(?:mov eax,|if eax==)n\d+a$", l):
                shown = re.sub(r"n\d+a$", "edi", l)      # (a parameter in a register is a text macro)
            out.append((l, shown, seg))
    out.append((".code", ".code", "c"))
    out.append(("fwd1: nop", "fwd1: nop", "c"))
    out.append(("end", "end", "c"))
    return out


def judge(ctx, case):
    fmt, kinds = case[0], case[1]
    lm = [k for k in kinds if k in ("lif", "if0", "listmac")]
    la = [k for k in kinds if k in ("lif", "if0", "listmac", "lall", "all", "inva")]
    if any(a in ("lif", "lall", "all", "inva") and set(la[n + 1:]) & {"if0", "lif"} for n, a in enumerate(la)) or "seg" in kinds and fmt in ("omf", "omf32"):
        return      # (.LISTIF and .LISTALL show the false block)
    lo = list(case[2]) if len(case) > 2 else []
    opts, head, secs = FMT[fmt]
    mod = module(fmt, kinds)
    src = "\n".join(m[0] for m in mod) + "\n"
    r = ctx.srv().asm(src, opts + ["-nomlib", "-Fl"] + lo, files=INC)
    key = "%s:%s%s" % (fmt, ",".join(kinds), "".join(lo))
    if set(lo) & {"-Sx", "-Sa"} and set(kinds) & {"if0", "lif"}:
        return
    if fmt == "elf64" and any(k in ("proc", "procu") and (set(kinds[:n]) & {"all", "lall", "inva"} or set(lo) & {"-Sg", "-Sa"}) for n, k in enumerate(kinds)):
        key = "listed-prologue-of-elf64-leaf-proc:" + key
    ctx.outcome(key)
    ctx.n["assemblies"] += 1
    if r.exit != 0 or r.sig:
        return V(key + ":rejected", r.text()[-300:], source=src)
    txt = r.files["t.lst"].decode("latin1")
    obj = getattr(objfmt, {"coff": "coff", "win64": "coff", "elf": "elf", "elf64": "elf", "omf": "omf", "omf32": "omf"}[fmt])(r.obj())
    sec = {}
    for k, n in secs.items():
        s = obj.sec(n)
        sec[k] = s.data if s else b""
    bad = judge_text(ctx, txt, mod, sec, kinds, lo, obj, secs)
    ctx.sample(txt[:3000])
    if os.environ.get("VERIF_DUMP"):
        return [V(key, b) for b in bad] or None
    if bad:
        return V(key, "; ".join(bad[:6]), source=src, listing=txt[:4000])


def judge_text(ctx, txt, mod, sec, kinds, lo, obj, secs):
    bad = []
    lines = txt.split("\r\n" if "\r\n" in txt else "\n")
    if not lines[0].startswith("UASM v"):
        bad.append("no header line")
    try:
        i = lines.index("t.asm", 0, 12) + 1
    except ValueError:
        return ["the source file isn't named in the header"]
    tables = next((k for k, l in enumerate(lines) if k > i and re.match(r"^(Macros|Structures|Records|Types|Segments|Procedures|Symbols)\b.*:$", l)), None)
    n = tables if tables is not None else next((k for k, l in enumerate(lines) if l.startswith("t.asm: ")), len(lines))
    want = [(m[0], m[1], m[2]) for m in mod if m[1] is not None or lo]
    listall = "-Sa" in lo or "-Sg" in lo
    skip = False
    ptr, seg, covered = 0, None, {"d": {}, "c": {}}
    labs = {}
    order = [(m[1], m[2]) for m in mod if m[1] is not None]
    at = {"c": 0, "d": 0}
    for l in lines[i:n]:
        if not l.strip():
            if ptr < len(order) and order[ptr][0] == "" and l == "":
                ptr += 1
            continue
        left, text = l[:32], l[32:]
        if re.match(r"^ *Warning ", left):
            continue
        if len(left) == 32 and left[:3] == " = " and not text and ptr and "equ" in order[ptr - 1][0] + order[ptr][0]:
            continue
        if left[:3] == "   " and not text and not left[28:].strip():
            if left.strip() in "some text which is long enough to fill more lines":
                continue
        gen, lev = left[28] == "*", left[29:32]
        inc = "C" in lev
        deep = bool(re.search(r"\d", lev))
        mline = left[:3] == " > "
        if not gen and not inc and not deep:
            if ptr >= len(order):
                bad.append("a line behind the last one: %r" % l)
                continue
            w, seg2 = order[ptr]
            if text.rstrip("\r") != w:
                bad.append("line %d of the source is listed as %r instead of %r" % (ptr + 1, text, w))
                if text in [o[0] for o in order[ptr:]]:
                    while order[ptr][0] != text:
                        ptr += 1
                else:
                    continue
            seg = order[ptr][1]
            ptr += 1
        if re.match(r"n\ds segment", text):
            skip = True
        elif re.match(r"n\ds ends", text) and skip:
            skip = False
            continue
        if skip:
            continue
        m = LEFT.match(left[:28])
        if not m:
            bad.append("unreadable columns %r" % left)
            continue
        if m.group(1) is None or seg is None or mline:
            continue
        ofs, by = int(m.group(1), 16), bytes.fromhex(m.group(2) or "") if len(m.group(2) or "") % 2 == 0 else None
        t = text.strip()
        if by is None:
            bad.append("odd number of digits: %r" % l)
            continue
        if re.match(r"\S+ (struct|ends)\b", t) or re.match(r"n\ds[ab] ", t):
            ctx.n["structure lines"] += 1
            continue
        if re.search(r"\b(record|typedef)\b", t) or t in (".code", ".data"):
            continue
        data = sec[seg]
        if by:
            ctx.n["lines with bytes"] += 1
            have = data[ofs:ofs + len(by)]
            if have + bytes(len(by) - len(have)) != by:
                bad.append("%r: the object has %s at %X" % (l.rstrip(), have.hex(), ofs))
            for k in range(len(by)):
                covered[seg][ofs + k] = 1
        lm = re.match(r"(\w+):", t) or re.match(r"(\w+) (?:db|dw|proc|n\ds|n\dr)\b", t)
        if lm and not deep and not gen:
            labs[lm.group(1)] = (seg, ofs)
        # the offsets of a segment never run backwards but for ORG
        if ofs < at[seg]:
            bad.append("%r: offset runs backwards" % l.rstrip())
        at[seg] = max(at[seg], ofs + len(by))
    if ptr != len(order):
        bad.append("the lines from %r on aren't listed" % (order[ptr][0],))
    # everything in the object is listed, but for what the listing leaves out: hidden lines, items past 9 bytes, ORG
    if not set(kinds) & {"nolist", "procl", "procu", "procx", "proc", "inv", "inva", "lall", "org", "bigdup", "dbl", "dup", "unin", "err", "align", "nolm", "hll", "all"} and not lo:
        for s in sec:
            miss = [k for k in range(len(sec[s])) if k not in covered[s]]
            if miss and not (s == "d" and len(miss) == len(sec[s])):
                miss = [k for k in miss if sec[s][k] not in (0, 0x90)]
                if miss:
                    bad.append("bytes at %s of %s aren't in the listing" % ([hex(k) for k in miss[:5]], s))
    if tables is None:
        if "-Sn" not in lo:
            bad.append("no symbol tables")
        return bad
    if "-Sn" in lo:
        bad.append("symbol tables in spite of -Sn")
    tab = "\n".join(lines[tables:])
    sn = {"d": "_DATA", "c": "_TEXT"}
    for name, (s, ofs) in labs.items():
        m = re.search(r"^\s*%s [ .]*\s+(?:P |L |)?\S+.*?\b([0-9A-F]+)h? %s\b" % (name, sn[s]), tab, re.M)
        if not m:
            bad.append("%s isn't in the symbol tables" % name)
        elif int(m.group(1), 16) != ofs:
            bad.append("%s is listed at %X but its table entry says %s" % (name, ofs, m.group(1)))
        else:
            ctx.n["table entries"] += 1
    for s in ("d", "c"):
        m = re.search(r"^%s [ .]*\s+(\d+) Bit\s+([0-9A-F]{8}) (\w+)\s+(\w+)\s+'(\w+)'" % sn[s], tab, re.M)
        so = obj.sec(secs[s])
        size = max(so.size, len(so.data)) if so else 0
        if not m:
            bad.append("segment %s isn't in the tables" % sn[s])
        elif int(m.group(2), 16) != size:
            bad.append("segment %s has the length %s in the table and %X in the object" % (sn[s], m.group(2), size))
    return bad


CORE = ("db", "jfwd", "lab", "rept", "mac", "inc", "all", "hll", "data", "org", "cont", "struc", "call", "procl", "procu", "inva", "nolist", "equt", "bigdup")


def g():
    ks = list(K)
    for fmt in FMT:
        for k in ks:
            yield fmt, (k,)
        for a, b in itertools.product(ks, ks):
            yield fmt, (a, b)
    for fmt in ("coff", "omf", "win64") if not T else FMT:
        for s in itertools.product(ks if T else [k for k in ks if k in ("db", "jfwd", "jcc", "lab", "if0", "rept", "mac", "inc", "nolist", "all", "hll", "proc", "data", "align", "org", "cont", "comb", "equt", "bigdup", "struc", "call", "procl", "procu", "procx", "inva", "lall")], repeat=3):
            yield fmt, s
    for lo in (("-Sn",), ("-Sa",), ("-Sg",), ("-Sx",), ("-Sa", "-Sn")):
        for fmt in FMT:
            for s in itertools.product(ks, repeat=1) if fmt not in ("coff", "omf", "win64") and not T else itertools.product([k for k in ks if k in CORE] if not T else ks, repeat=2):
                yield fmt, s, lo


ck.explore("sequences of statements", g, judge)
ck.finish("every listed offset and byte is the object's, the listed source is the source, table entries agree", validated=ck.n["assemblies"])

"""C27 names: every arrangement of definitions of one name in several scopes and uses in all of them is assembled and every use decoded; anonymous
labels in every order; structure members; and the global symbols of the object file for every kind of declaration, language and format."""
import itertools, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
import objfmt

ck = Check("C27", variants=("plain",))
T = ck.thorough


def u32(b, o):
    return struct.unpack_from("<I", b, o)[0]


# ------------------------------------------------------------------------ A: scopes ----
# five places: outside, proc p1, outside, proc p2, outside.  Every place uses x at its start and its end and defines it (or not) in between.
OUT = [None, "label", "data", "equ"]
IN = [None, "label", "glabel", "local", "param"]


def spell(mode, n, name="xyz"):
    """a use of the name; in mode "mixed" written in another case"""
    return name.swapcase() if mode and n % 2 else name


def judge_scope(ctx, case):
    defs, case_opt, scoped, lang = case
    src = [".386", ".model flat" + (", " + lang if lang else "")]
    src += {"": [], "all": ["option casemap:all"], "none": ["option casemap:none"], "notpublic": ["option casemap:notpublic"]}[case_opt]
    if scoped:
        src.append("option " + scoped)
    mixed = case_opt in ("all", "notpublic") or not case_opt
    src.append(".code")
    # simulation of the layout; p[...] = (address of the definition, kind)
    is_scoped = scoped != "noscoped"
    uses, glob, loc, dup = [], [], [[], [], [], [], []], False
    n = 0
    body = []

    def use(place):
        nonlocal n
        body.append(("use", place, "lea eax, " + spell(mixed, n)))
        n += 1
    for i, d in enumerate(defs):
        inside = i in (1, 3)
        if inside:
            body.append(("t", i, "p%d proc%s" % (i, " c xyz:dword" if d == "param" else " c")))
            if d == "local":
                body.append(("t", i, "local xyz:dword, qqq:dword"))
        use(i)
        body.append(("t", i, "db 0%xh" % (0x90 + i)))
        if d in ("label", "glabel", "data", "equ"):
            body.append(("def", i, {"label": "xyz:", "glabel": "xyz::", "data": "xyz dd 12345678h", "equ": "xyz equ <dword ptr ds:[7654321h]>"}[d]))
        use(i)
        if inside:
            body += [("t", i, "ret"), ("t", i, "p%d endp" % i)]
    src += [b[2] for b in body] + ["end"]
    text = "\n".join(src) + "\n"
    r = ctx.srv().asm(text, ["-bin", "-nomlib"])
    key = "%s:%s:%s:%s" % (",".join(str(d) for d in defs), case_opt, scoped, lang)
    ctx.outcome(key)
    ctx.n["assemblies"] += 1
    # scopes
    gdefs = [i for i, d in enumerate(defs) if d in ("data", "glabel") or d == "label" and (not (i in (1, 3)) or not is_scoped)]
    ctx.sample(text)
    bad = len(gdefs) > 1
    # a local name must not be defined behind a global definition of the same name
    bad |= any(g < i and (d in ("local", "param") or d == "label" and i in (1, 3) and is_scoped) for i, d in enumerate(defs) for g in gdefs)
    want = []
    for i, d in enumerate(defs):
        if d in ("local", "param"):
            want += [d, d]
        elif d == "label" and i in (1, 3) and is_scoped:
            want += [i, i]
        elif gdefs:
            want += [gdefs[0]] * 2
        else:
            bad = True
    img = r.obj()
    # a name that is both a parameter or LOCAL and a label of the same procedure doesn't occur here
    if bad:
        if not r.exit:
            return V(key, "assembled, although the name is %s" % ("defined twice" if gdefs else "undefined somewhere"), source=text)
        return
    if r.exit or not img:
        return V(key, "not assembled: " + r.text()[:200], source=text)
    # decode
    p, got, addr = 0, [], {}
    for i, d in enumerate(defs):
        inside = i in (1, 3)
        if inside and d in ("local", "param"):
            q = b"\x55\x8b\xec" + (b"\x83\xc4\xf8" if d == "local" else b"")
            if img[p:p + len(q)] != q:
                return V(key, "unexpected prologue %s" % img[p:p + 8].hex(), source=text)
            p += len(q)
        for k in (0, 1):
            if img[p] != 0x8d:
                return V(key, "unexpected instruction %s at %x" % (img[p:p + 8].hex(), p), source=text)
            if img[p + 1] == 0x05:
                got.append(u32(img, p + 2))
                p += 6
            elif img[p + 1] == 0x45:
                got.append({0xfc: "local", 0x08: "param"}.get(img[p + 2], "ebp+%x" % img[p + 2]))
                p += 3
            else:
                return V(key, "unexpected instruction %s at %x" % (img[p:p + 8].hex(), p), source=text)
            if k == 0:
                if img[p] != 0x90 + i:
                    return V(key, "unexpected byte %x at %x" % (img[p], p), source=text)
                p += 1
                addr[i] = p
                if d == "data":
                    p += 4
        if inside:
            if d in ("local", "param"):
                p += 1
            p += 1
    if p != len(img):
        return V(key, "%d bytes instead of %d" % (len(img), p), source=text)
    w = [addr[x] if isinstance(x, int) else x for x in want]
    ctx.n["uses"] += len(w)
    if w != got:
        return V(key, "uses resolve to %s, expected %s" % (got, w), source=text)


def g_scope():
    o = [None, "label", "data"]
    for d in itertools.product(o, IN, o, IN, o):
        for c in ("", "all", "none", "notpublic"):
            for s in (None, "scoped", "noscoped"):
                for l in (None, "c", "stdcall"):
                    if not T and l == "stdcall" and s:
                        continue
                    yield d, c, s, l


ck.explore("one name in five places", g_scope, judge_scope)


# -------------------------------------------------------------------- B: anonymous labels --
def judge_anon(ctx, case):
    seq, near = case
    src = [".386", ".model flat, c", ".code", "db 0EEh"]
    pos, use, inproc, k = 1, [], False, 0
    labs = []
    for e in seq:
        if e == "A":
            src.append("@@:")
            labs.append((pos, k if inproc else 0))
        elif e == "I":
            src.append("@@: nop")
            labs.append((pos, k if inproc else 0))
            pos += 1
        elif e == "P":
            if inproc:
                src += ["q%d endp" % k]
            else:
                k += 1
                src += ["q%d proc" % k]
            inproc = not inproc
        else:
            src.append("%s @%s" % ("dd offset" if not near else "lea eax,", e))
            pos += 4 if not near else 6
            use.append((pos - 4, e, len(labs), k if inproc else 0))
    if inproc:
        src.append("q%d endp" % k)
    text = "\n".join(src) + "\nend\n"
    r = ctx.srv().asm(text, ["-bin", "-nomlib"])
    key = "@@:%s:%s" % (seq, near)
    ctx.outcome(key)
    ctx.n["assemblies"] += 1
    # labels of procedures are local to them, anonymous ones as well
    bad = False
    for _, e, n, sc in use:
        i = n - 1 if e == "B" else n
        bad |= not 0 <= i < len(labs) or labs[i][1] not in (0, sc)
    if bad:
        if not r.exit:
            return V(key, "assembled without the anonymous label", source=text)
        return
    img = r.obj()
    if r.exit or not img:
        return V(key, "not assembled: " + r.text()[:200], source=text)
    if len(img) != pos:
        return V(key, "%d bytes instead of %d" % (len(img), pos), source=text)
    for o, e, n, sc in use:
        w = labs[n - 1 if e == "B" else n][0]
        ctx.n["uses"] += 1
        if u32(img, o) != w:
            return V(key, "@%s at %x is %x, expected %x" % (e, o, u32(img, o), w), source=text)


def g_anon():
    for n in range(1, 8 if T else 7):
        for s in itertools.product("AIPBF", repeat=n):
            if "B" in s or "F" in s:
                yield "".join(s), n & 1


ck.explore("anonymous labels", g_anon, judge_anon)


# --------------------------------------------------------------------- C: members --------
def judge_memb(ctx, case):
    oa, ob, glob, local, cm, order = case
    pad = lambda n: ["db %d dup (0)" % n] if n else []
    sa = ["sa struct"] + pad(oa) + ["xyz dd 0", "sa ends"]
    sb = ["sb struct"] + pad(ob) + ["xyz dw 0", "sb ends"]
    src = [".386", ".model flat, c"] + (["option casemap:" + cm] if cm else [])
    src += sa + sb if order else sb + sa
    src += [".code", "va sa <>", "vb sb <>"]
    pos = oa + 4 + ob + 2
    g = pos
    if glob:
        src.append("xyz dd 5")
        pos += 4
    m = "xyz" if cm == "none" else "XYZ"
    t = [("lea eax, [ebx].sa.%s" % m, 0x43, oa), ("lea eax, [ebx].sb.xyz", 0x43, ob), ("lea eax, va.xyz", 5, oa), ("lea eax, vb.%s" % m, 5, oa + 4 + ob),
         ("lea eax, (sb ptr [ebx]).xyz", 0x43, ob), ("lea eax, (sa ptr va).xyz", 5, oa), ("lea eax, (sb ptr va).xyz", 5, ob)]
    if glob:
        t.append(("lea eax, %s" % m, 5, g))
    src.append("p1 proc")
    if local:
        src.append("local xyz:sb, lv:sa")
    base = None
    if local:
        t = [x for x in t if x[0] != "lea eax, xyz" and x[0] != "lea eax, XYZ"]
        t += [("lea eax, xyz", 0x45, None), ("lea eax, xyz.xyz", 0x45, ob), ("lea eax, lv.xyz", 0x45, None)]
    src += [x[0] for x in t] + ["ret", "p1 endp", "end"]
    text = "\n".join(src) + "\n"
    r = ctx.srv().asm(text, ["-bin", "-nomlib"])
    key = "memb:%s" % (":".join(str(x) for x in case))
    ctx.outcome(key)
    ctx.n["assemblies"] += 1
    img = r.obj()
    if r.exit or not img:
        return V(key, "not assembled: " + r.text()[:200], source=text)
    p = pos
    if local:
        p += 3 + (3 if img[p + 3] == 0x83 else 6)
        if img[pos:pos + 3] != b"\x55\x8b\xec":
            return V(key, "unexpected prologue", source=text)
    for ins, mod, d in t:
        ctx.n["uses"] += 1
        if img[p] != 0x8d:
            return V(key, "unexpected code %s for %s" % (img[p:p + 8].hex(), ins), source=text)
        rm = img[p + 1]
        if rm == 5:
            v, ln, rg = u32(img, p + 2), 6, 5
        elif rm == 3:
            v, ln, rg = 0, 2, 0x43
        elif rm in (0x43, 0x45):
            v, ln, rg = struct.unpack_from("<b", img, p + 2)[0], 3, rm
        elif rm in (0x83, 0x85):
            v, ln, rg = struct.unpack_from("<i", img, p + 2)[0], 6, rm - 0x40
        else:
            return V(key, "unexpected code %s for %s" % (img[p:p + 8].hex(), ins), source=text)
        if ins == "lea eax, xyz":
            base, d = v, v
        elif ins == "lea eax, xyz.xyz":
            d += base
        elif d is None:
            d = v
        if (v, rg) != (d, mod):
            return V(key, "%s is %s, displacement %d expected" % (ins, img[p:p + ln].hex(), d), source=text)
        p += ln


def g_memb():
    r = (0, 1, 4, 130) if not T else (0, 1, 2, 3, 4, 8, 130, 300)
    for oa in r:
        for ob in r:
            for glob, local in ((0, 0), (0, 1), (1, 0)):
                if 1:
                    for cm in ("", "none", "all"):
                        for order in (0, 1):
                            yield oa, ob, glob, local, cm, order


ck.explore("structure members", g_memb, judge_memb)


# ------------------------------------------------------------------ D: symbol tables ------
FMT = {"-coff": objfmt.coff, "-win64": objfmt.coff, "-elf": objfmt.elf, "-elf64": objfmt.elf, "-omf": objfmt.omf, "-macho64": objfmt.macho}
LANGS = [None, "c", "syscall", "stdcall", "pascal", "fortran", "basic", "fastcall", "vectorcall"]
PAR = {"": 0, "a1:dword": 4, "a1:byte, a2:word, a3:dword": 12, "a1:qword, a2:dword": 12}


def deco(name, lang, isproc, pars, fmt, opt):
    b64 = fmt in ("-win64", "-elf64", "-macho64")
    if b64:
        size = {"": 0, "a1:dword": 8, "a1:byte, a2:word, a3:dword": 24, "a1:qword, a2:dword": 16}[pars]
    else:
        size = PAR[pars]
    if lang in (None, "syscall") or fmt == "-macho64":      # Mach-O: names are written as they are spelled
        return name
    if lang == "c":
        return name if "-zcw" in opt else "_" + name
    if lang == "stdcall":
        if "-zt0" in opt:
            return name
        return "_%s@%d" % (name, size) if isproc and "-zt1" not in opt else "_" + name
    if lang in ("pascal", "fortran", "basic"):
        return name.upper()
    if lang == "fastcall":
        if b64 or fmt == "-elf":
            return name
        return "@%s@%d" % (name, size) if isproc else name
    return "%s@@%d" % (name, size) if isproc else name


# kind: (lines before, in .data, in .code, expected: [(name, "def"/"und", isproc)])
def module(kind, lang, pars, b64):
    L = " " + lang if lang else ""
    A = (" " + pars) if pars else ""
    # a procedure uses its language before the parameters
    sep = "," if pars else ""
    n = "SyM"
    pre, data, code, exp = [], [], [], []
    use = ["mov eax, %s" % n]
    P = "proto%s%s%s" % (L, "", (" " + ", ".join(":" + x.split(":")[1] for x in pars.split(", "))) if pars else "")
    call = ["call " + n]
    if kind == "pubdata":
        pre, data, exp = ["public%s %s" % (L, n)], [n + " dd 0C0FFEEh"], [(n, "data", False)]
    elif kind == "pubdata2":
        data, code, exp = [n + " dd 0C0FFEEh"], ["public%s %s" % (L, n)], [(n, "data", False)]
    elif kind == "privdata":
        data = [n + " dd 0C0FFEEh"]
    elif kind == "publab":
        code, exp = [n + ":", "dd 0C0FFEEh", "public%s %s" % (L, n)], [(n, "data", False)]
    elif kind == "proc":
        code, exp = ["%s proc%s%s" % (n, L, A), "ret", n + " endp"], [(n, "code", True)]
    elif kind == "procpub":
        code, exp = ["%s proc%s public%s" % (n, L, A), "ret", n + " endp"], [(n, "code", True)]
    elif kind == "procpriv":
        code = ["%s proc%s private%s" % (n, L, A), "ret", n + " endp"]
    elif kind == "procexp":
        code, exp = ["%s proc%s export%s" % (n, L, A), "ret", n + " endp"], [(n, "code", True)]
    elif kind == "optpriv":
        pre = ["option proc:private"]
        code = ["%s proc%s%s" % (n, L, A), "ret", n + " endp"]
    elif kind == "optprivpub":
        pre = ["option proc:private", "public%s %s" % (L, n)]
        code, exp = ["%s proc%s%s" % (n, L, A), "ret", n + " endp"], [(n, "code", True)]
    elif kind == "protoproc":
        pre = ["%s %s" % (n, P)]
        code, exp = ["%s proc%s%s" % (n, L, A), "ret", n + " endp"], [(n, "code", True)]
    elif kind == "protocall":
        pre, code, exp = ["%s %s" % (n, P)], call, [(n, "und", True)]
    elif kind == "protounused":
        pre = ["%s %s" % (n, P)]
    elif kind == "extern":
        pre, code, exp = ["extern%s %s:dword" % (L, n)], use, [(n, "und", False)]
    elif kind == "externnear":
        pre, code, exp = ["extern%s %s:near" % (L, n)], call, [(n, "und", False)]
    elif kind == "externabs":
        pre, code, exp = ["extern%s %s:abs" % (L, n)], use, [(n, "und", False)]
    elif kind == "externproto":
        pre, code, exp = ["extern%s %s:%s" % (L, n, P)], call, [(n, "und", True)]
    elif kind == "edused":
        pre, code, exp = ["externdef%s %s:dword" % (L, n)], use, [(n, "und", False)]
    elif kind == "edunused":
        pre = ["externdef%s %s:dword" % (L, n)]
    elif kind == "eddef":
        pre, data, exp = ["externdef%s %s:dword" % (L, n)], [n + " dd 0C0FFEEh"], [(n, "data", False)]
    elif kind == "eddeflater":
        data, code, exp = [n + " dd 0C0FFEEh"], ["externdef%s %s:dword" % (L, n)], [(n, "data", False)]
    elif kind == "comm":
        pre, exp = ["comm%s %s:dword" % (L, n)], [(n, "und", False)]
    return pre, data, code, exp


KINDS = ["pubdata", "pubdata2", "privdata", "publab", "proc", "procpub", "procpriv", "procexp", "optpriv", "optprivpub", "protoproc", "protocall", "protounused",
         "extern", "externnear", "externabs", "externproto", "edused", "edunused", "eddef", "eddeflater", "comm"]
HASPAR = {"proc", "procpub", "procpriv", "procexp", "optpriv", "optprivpub", "protoproc", "protocall", "protounused", "externproto"}


def judge_sym(ctx, case):
    fmt, mlang, lang, kind, pars, opt, spellkind = case
    b64 = fmt in ("-win64", "-elf64", "-macho64")
    pre, data, code, exp = module(kind, lang, pars, b64)
    head = [".x64"] if b64 else [".386"]
    if not b64:
        head.append(".model flat" + (", " + mlang if mlang else ""))
    elif mlang:
        head.append("option language:" + mlang)
    if opt and opt[0].startswith("option"):
        head.append(opt[0])
    src = head + pre + [".data", "dd 11223344h"] + data + [".code", "nop"] + code + ["end"]
    if spellkind == "use":          # every later occurrence in another case
        seen = False
        for i, l in enumerate(src):
            if "SyM" in l:
                if seen:
                    src[i] = l.replace("SyM", "sYm")
                seen = True
    text = "\n".join(src) + "\n"
    o = [x for x in opt if x[0] == "-"]
    r = ctx.srv().asm(text, [fmt, "-nomlib"] + o)
    key = "%s:%s:%s:%s:%s:%s:%s" % (fmt, mlang, lang, kind, pars.replace(" ", ""), ",".join(opt).replace(" ", "_"), spellkind)
    ctx.outcome(key)
    ctx.n["assemblies"] += 1
    sens = "-Cp" in opt or "option casemap:none" in opt
    if sens and spellkind == "use" and sum(l.count("sYm") for l in src):
        return      # two different names: covered by the scopes
    ctx.sample(text)
    if r.exit or not r.obj():
        return V(key, "not assembled: " + r.text()[:200], source=text, opts=o)
    try:
        ob = FMT[fmt](r.obj())
    except objfmt.Bad as e:
        return V(key, "object file: %s" % e, source=text, opts=o)
    want = {}
    for n, w, isproc in exp:
        # EXTERNDEF sets the language only if the symbol isn't defined yet
        d = deco(n, mlang if kind == "eddeflater" else lang or mlang, isproc, pars, fmt, opt)
        if fmt == "-omf" and ("-Cu" in opt or "option casemap:all" in opt):
            d = d.upper()
        want[d] = w
    got = {}
    for s in ob.syms:
        if not s.glob or s.name in ("_GLOBAL_OFFSET_TABLE_",):
            continue
        if s.name in got:
            return V(key, "%s is in the symbol table twice" % s.name, source=text, opts=o)
        got[s.name] = s
    if set(got) != set(want):
        return V(key, "global symbols %s, expected %s" % (sorted(got), sorted(want)), source=text, opts=o)
    for n, w in want.items():
        s = got[n]
        ctx.n["uses"] += 1
        if w == "und":
            if s.sec not in (None, "common"):
                return V(key, "%s is defined" % n, source=text, opts=o)
        else:
            if not isinstance(s.sec, objfmt.Sec):
                return V(key, "%s is not defined in a section" % n, source=text, opts=o)
            d = bytes(s.sec.data) if s.sec.data else bytes(s.sec.written.get(i, 0) for i in range(s.sec.size))
            v = s.value
            if w == "data" and u32(d, v) != 0xC0FFEE or w == "code" and v != 1:
                return V(key, "%s is at %x of %s: %s" % (n, s.value, s.sec.name, d.hex()), source=text, opts=o)


def g_sym():
    for fmt in FMT:
        b64 = fmt in ("-win64", "-elf64", "-macho64")
        ml = LANGS if not b64 else [None, "c", "fastcall", "vectorcall"]
        if fmt in ("-elf64", "-macho64"):
            ml = [None, "c"]
        ls = LANGS if not b64 else ml
        for m in ml:
            for l in ls:
                for k in KINDS:
                    if l is None and m is None and k in HASPAR:
                        ps = [""]
                    elif k in HASPAR:
                        ps = sorted(PAR)
                    else:
                        ps = [""]
                    for p in ps:
                        for o in ((), ("-zt0",), ("-zt1",), ("-Cp",), ("-Cu",), ("-Cx",), ("option casemap:none",), ("option casemap:all",), ("option casemap:notpublic",)):
                            if not T and o and (p not in ("", "a1:dword") or m and l and m != l):
                                continue
                            for s in ("same", "use"):
                                yield fmt, m, l, k, p, o, s


ck.explore("global symbols of the object", g_sym, judge_sym)
ck.finish("every use resolves to the definition of its scope; the object's global symbols are exactly the declared ones, decorated, at the definition's place",
          states=ck.n["uses"], transitions=ck.n["uses"], validated=ck.n["assemblies"])

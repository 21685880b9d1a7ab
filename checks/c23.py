"""C23 no input makes the assembler crash, touch memory out of bounds or run away: every mutation of a bounded class (lines deleted, doubled,
exchanged, cut; tokens deleted, replaced, doubled, grown to every length around the buffer sizes), at every place, of every statement of a
catalogue, and every directive with every operand list up to a length, on the real program built with AddressSanitizer."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from corpus import *
import corpus

ck = Check("C23", variants=("asan",))
T = ck.thorough
os.environ["ASAN_SEGV"] = "1"
TOK = re.compile(r"\"[^\"]*\"?|'[^']*'?|[\w@$?.]+|[^\w\s]")
TOKS = ["", ",", "(", ")", "<", ">", "\"", "{", "}", "[", "]", ":", "0", "-1", "80000000h", "eax", "?", "%", "offset", "ptr", "dup", "equ", "undef1", "9 dup (", "\\", ";", "&", "!", ".", "proc", "macro", "1.5", "'"]
QTOKS = ["", ",", "(", "<", "\"", "{", "[", "-1", "eax", "?", "%", "ptr", "\\", "undef1"]
LENS = [31, 32, 33, 63, 64, 65, 127, 128, 129, 246, 247, 248, 255, 256, 257, 260, 400, 511, 512, 513, 600, 900, 1000, 1015, 1023, 1024, 1025]
QLENS = [33, 65, 129, 247, 248, 257, 513, 700, 1000, 1020]


def frames(t):
    """call site of a report: the innermost functions of the assembler"""
    f = re.findall(r"#\d+ 0x\w+ in (\w+) [^\n]*?/repo/(?:H/)?(\w+\.[ch])", t)
    k = re.search(r"AddressSanitizer: ([\w-]+)", t)
    return (k.group(1) if k else "?"), [a for a, b in f][:3]


def judge(ctx, case):
    name, src, opt = case[0], case[1], case[2]
    files = dict(FILES)
    files.update(case[3] if len(case) > 3 else {})
    r = ctx.srv("asan").asm(src, list(opt) + ["-nomlib"], files=files)
    ctx.n["assemblies"] += 1
    t = r.text()
    if r.exit is not None and not r.sig and r.exit in (0, 1, 2) and "General Failure" not in t:
        ctx.outcome(name.split(":")[0], r.exit, tuple(sorted(set(re.findall(r"\bA\d{4}\b", t)))))
        ctx.sample(src[-300:])
        return
    if "AddressSanitizer" in t:
        k, f = frames(t)
        key = "%s:%s" % (k, "<".join(f))
    elif r.sig in (24, 27, 14, 9) and re.search(r"\b(goto|while|for)\b", src, re.I) or r.sig == 25:
        ctx.n["endless by its own macro loop, or output larger than the limit"] += 1
        return
    else:
        key = "died:%s:%s" % (r.sig or r.exit, name)
    return V(key, "%s with %s: %s" % (name, " ".join(opt), t[-600:] if "AddressSanitizer" not in t else t[:500]), source=src, opts=list(opt))


MODS = dict(("d:" + k, v) for k, v in DIRTY.items())
MODS.update(("c:" + k, v) for k, v in CORPUS.items())


def opts_of(k):
    """the options a module is looked at with"""
    t = MODS[k].lower()
    if re.search(r"\brax\b|\brsp\b|\br8\b|frame\b|[xy]mm\d", t) and ".model" not in t:
        return [["-win64"], ["-elf64"]]
    if ".386" in t or ".486" in t or "586" in t or "686" in t:
        return [["-coff"], ["-omf", "-Fl"]]
    return [["-omf"], ["-bin"]]


def small(limit):
    for k in MODS:
        if MODS[k].count("\n") <= limit:
            yield k


def g_matrix():
    for k in MODS:
        for o in OPTS if T else OPTS[:12]:
            yield "whole:" + k, MODS[k], o


def g_lines():
    for k in small(200 if T else 28):
        ls = MODS[k].replace("\r\n", "\n").split("\n")
        n = len(ls)
        for o in opts_of(k)[:2 if T else 1]:
            for i in range(n):
                yield "del%d:%s" % (i, k), "\n".join(ls[:i] + ls[i + 1:]), o
                yield "dup%d:%s" % (i, k), "\n".join(ls[:i + 1] + ls[i:]), o
                yield "eof%d:%s" % (i, k), "\n".join(ls[:i + 1]), o
                if i + 1 < n:
                    yield "swap%d:%s" % (i, k), "\n".join(ls[:i] + [ls[i + 1], ls[i]] + ls[i + 2:]), o


def g_tokens():
    seen = set()
    for k in small(120 if T else 30):
        ls = MODS[k].replace("\r\n", "\n").split("\n")
        for i, l in enumerate(ls):
            if len(l) > 300 or l in seen and not T:
                continue
            seen.add(l)
            for o in opts_of(k)[:2 if T else 1]:
                for m in TOK.finditer(l):
                    for t in TOKS if T else QTOKS[(i + m.start()) % 5::5]:
                        yield "tok%d.%d:%s" % (i, m.start(), k), "\n".join(ls[:i] + [l[:m.start()] + " " + t + " " + l[m.end():]] + ls[i + 1:]), o
                    yield "cut%d.%d:%s" % (i, m.start(), k), "\n".join(ls[:i] + [l[:m.start()]] + ls[i + 1:]), o
                    yield "end%d.%d:%s" % (i, m.start(), k), "\n".join(ls[:i] + [l[:m.end()]]), o


def g_long():
    seen = set()
    for k in small(60 if T else 25):
        ls = MODS[k].replace("\r\n", "\n").split("\n")
        for i, l in enumerate(ls):
            sh = re.sub(r"\d+", "0", l)
            if sh in seen and not T or len(l) > 300:
                continue
            seen.add(sh)
            o = opts_of(k)[0]
            for m in TOK.finditer(l):
                t = m.group(0)
                for n in LENS if T else QLENS[i % 2::2]:
                    if t[0] in "\"'":
                        x = t[0] + "q" * n + t[0]
                    elif t[0].isdigit():
                        x = "0" * n + t
                    elif t[0] in "<{([":
                        x = t + t[0] * n
                    elif t[0].isalpha() or t[0] in "_@$?.":
                        x = t + "z" * n
                    else:
                        x = t * min(n, 400)
                    yield "len%d.%d.%d:%s" % (i, m.start(), n, k), "\n".join(ls[:i] + [l[:m.start()] + x + l[m.end():]] + ls[i + 1:]), o


CTX = {
    "none": ("", ""), "seg": (".686\n.xmm\n.model flat,c\n.data\nv1 dd 1\n.code\nl1: nop\n", "end\n"), "proc": (".686\n.xmm\n.model flat,c\n.code\np1 proc c uses esi a1:dword\nlocal b1:dword\n", "ret\np1 endp\nend\n"),
    "struct": ("s1 struct\nf1 dd ?\n", "f2 dw ?\ns1 ends\nend\n"), "macro": ("m1 macro a1,b1\nlocal c1\n", "endm\n.model small\n.code\nm1 1,2\nend\n"), "p64": (".code\np1 proc frame uses rsi a1:qword\nlocal b1:oword\n", "ret\np1 endp\nend\n"),
    "if": (".386\n.model flat\n.code\n.while eax\n.if ecx\n", ".endif\n.endw\nend\n"),
}
VOC = ["", ",", "x1", "l1", "a1", "v1", "eax", "rcx", "xmm1", "5", "-1", "<a>", "<", "\"s\"", "?", "(", "1 dup (?)", ":", "byte", "ptr byte", "=", "[eax]", "flat:", "%5", "not", "offset l1", "{", "c", "1.5"]
WORDS = open(os.path.join(HARN, "words.txt")).read().split()


def directives():
    """reserved words which aren't instructions or registers, and a sample of those"""
    return sorted(w for w in WORDS if w[0] in ".%@" or w in DIRS)


DIRS = set("""alias align assume byte catstr comm comment db dd df dosseg dp dq dt dup dw dword echo else elseif elseif1 elseif2 elseifb elseifdef elseifdif elseifdifi elseife elseifidn elseifidni elseifnb elseifndef end endif endm endp ends
equ even exitm extern externdef extrn for forc fword goto group if if1 if2 ifb ifdef ifdif ifdifi ife ifidn ifidni ifnb ifndef include includelib incbin instr invoke irp irpc label local macro name org option page popcontext proc
proto public purge pushcontext qword real10 real4 real8 record repeat rept sbyte sdword segment sizestr sqword struc struct substr subtitle subttl sword tbyte textequ title typedef union while word oword xmmword ymmword zmmword
sqword mmword .386 .486 .586 .686 .8086 addr offset seg high low size sizeof length lengthof type opattr this mask width not and or xor mod shl shr eq ne lt le gt ge imagerel sectionrel short ptr near far mov jmp call push ret lea imul vaddps
vgatherdps rep lock fld enter int cmpeqps loop jecxz in out movs bound frame method endmethod class comethod rawptr""".split())


def g_dirs():
    ds = directives()
    for c in CTX:
        h, t = CTX[c]
        o = ["-win64"] if c == "p64" else ["-coff"]
        for d in ds:
            for n in (0, 1, 2):
                for a in itertools.product(VOC if n < 2 or T else [v for v in VOC if v in (",", "x1", "eax", "5", "<a>", "?", "(", ":", "=", "%5")], repeat=n):
                    if n == 2 and not T and c != "seg":
                        continue
                    yield "dir:%s:%s" % (c, d), h + d + " " + " ".join(a) + "\n" + t, o
                    if n < 2 or T:
                        yield "ndir:%s:%s" % (c, d), h + "x9 " + d + " " + " ".join(a) + "\n" + t, o


def rep(f, n):
    return "".join(f(i) for i in range(n))


H32, E = ".686\n.xmm\n.model flat,c\n.code\n", "end\n"
NEST = {  # name: (source of depth n, option)
    "paren": lambda n: H32 + "dd %s1%s\n" % ("(" * n, ")" * n) + E,
    "brack": lambda n: H32 + "mov eax,%seax%s\n" % ("[" * n, "]" * n) + E,
    "angle": lambda n: "a1 textequ %sx%s\n" % ("<" * n, ">" * n) + H32 + E,
    "curly": lambda n: "s struct\na db 3 dup (?)\ns ends\n" + H32 + "x s %s1%s\n" % ("{" * n, "}" * n) + E,
    "curlyang": lambda n: "s struct\na db 3 dup (?)\ns ends\n" + H32 + "x s %s1%s\n" % ("<" * n, ">" * n) + E,
    "dup": lambda n: H32 + "db %s1%s\n" % ("1 dup (" * n, ")" * n) + E,
    "struct": lambda n: rep(lambda i: ("s1 struct\n" if i == 0 else "struct f%d\n" % i) + "a%d db 1\n" % i, n) + rep(lambda i: "ends\n" if i < n - 1 else "s1 ends\n", n) + H32 + "x s1 <>\n" + E,
    "structin": lambda n: "s0 struct\na db 1\ns0 ends\n" + rep(lambda i: "s%d struct\nb s%d <>\ns%d ends\n" % (i + 1, i, i + 1), n) + H32 + "x s%d <>\n" % n + "mov al,x%s.a\n" % (".b" * n) + E,
    "structinit": lambda n: "s0 struct\na db 1\ns0 ends\n" + rep(lambda i: "s%d struct\nb s%d <>\ns%d ends\n" % (i + 1, i, i + 1), n) + H32 + "x s%d %s1%s\n" % (n, "<" * (n + 1), ">" * (n + 1)) + E,
    "if": lambda n: rep(lambda i: "if 1\n", n) + H32 + rep(lambda i: "endif\n", n) + E,
    "ifelse": lambda n: H32 + "if 0\n" + rep(lambda i: "elseif 0\n", n) + "else\nnop\nendif\n" + E,
    "macro": lambda n: rep(lambda i: "m%d macro\n m%d\nendm\n" % (i, i + 1), n) + "m%d macro\nendm\n" % n + H32 + "m0\n" + E,
    "macrodef": lambda n: rep(lambda i: "m%d macro\n" % i, n) + "nop\n" + rep(lambda i: "endm\n", n) + H32 + rep(lambda i: "m%d\n" % i, n) + E,
    "fmacro": lambda n: "f macro x\nexitm <x>\nendm\n" + H32 + "dd %s1%s\n" % ("f(" * n, ")" * n) + E,
    "selfmac": lambda n: "f macro x\nif x\nf %%x-1\nendif\nendm\n" + H32 + "f %d\n" % n + E,
    "rept": lambda n: H32 + rep(lambda i: "repeat 1\n", n) + "nop\n" + rep(lambda i: "endm\n", n) + E,
    "for": lambda n: H32 + rep(lambda i: "for x%d,<1>\n" % i, n) + "nop\n" + rep(lambda i: "endm\n", n) + E,
    "proc": lambda n: H32 + rep(lambda i: "p%d proc\n" % i, n) + rep(lambda i: "p%d endp\n" % (n - 1 - i), n) + E,
    "seg": lambda n: ".686\n" + rep(lambda i: "g%d segment\n" % i, n) + "nop\n" + rep(lambda i: "g%d ends\n" % (n - 1 - i), n) + E,
    "hllif": lambda n: H32 + rep(lambda i: ".if eax\n", n) + "nop\n" + rep(lambda i: ".endif\n", n) + E,
    "hllwhile": lambda n: H32 + rep(lambda i: ".while eax\n", n) + "nop\n" + rep(lambda i: ".endw\n", n) + E,
    "hllrepeat": lambda n: H32 + rep(lambda i: ".repeat\n", n) + "nop\n" + rep(lambda i: ".until eax\n", n) + E,
    "hllfor": lambda n: H32 + rep(lambda i: ".for (eax=0: eax < 3: eax++)\n", n) + "nop\n" + rep(lambda i: ".endfor\n", n) + E,
    "hllswitch": lambda n: H32 + rep(lambda i: ".switch eax\n.case 1\n", n) + "nop\n" + rep(lambda i: ".endswitch\n", n) + E,
    "hllcond": lambda n: H32 + ".if " + " && ".join(["eax"] * (n + 1)) + "\n.endif\n" + E,
    "hllor": lambda n: H32 + ".if " + " || ".join(["eax"] * (n + 1)) + "\n.endif\n" + E,
    "hllpar": lambda n: H32 + ".if %seax%s\n.endif\n" % ("(" * n, ")" * n) + E,
    "hllnot": lambda n: H32 + ".if %seax\n.endif\n" % ("!" * n) + E,
    "elseif": lambda n: H32 + ".if eax\n" + rep(lambda i: ".elseif ecx == %d\n" % i, n) + ".endif\n" + E,
    "case": lambda n: H32 + ".switch eax\n" + rep(lambda i: ".case %d\nnop\n" % i, n) + ".endswitch\n" + E,
    "casespread": lambda n: H32 + ".switch eax\n" + rep(lambda i: ".case %d\nnop\n" % (i * 1000), n) + ".default\nnop\n.endswitch\n" + E,
    "case64": lambda n: ".code\np proc frame\n.switch rax\n" + rep(lambda i: ".case %d\nnop\n" % i, n) + ".default\nnop\n.endswitch\nret\np endp\n" + E,
    "params": lambda n: H32 + "p proc c " + ",".join("a%d:dword" % i for i in range(n)) + "\nret\np endp\ninvoke p" + ",1" * n + "\n" + E,
    "params64": lambda n: ".code\np proc " + ",".join("a%d:qword" % i for i in range(n)) + "\nret\np endp\nq proc frame\ninvoke p" + ",1" * n + "\nret\nq endp\n" + E,
    "locals": lambda n: H32 + "p proc c\nlocal " + ",".join("a%d:dword" % i for i in range(n + 1)) + "\nret\np endp\n" + E,
    "localsm": lambda n: H32 + "p proc c\n" + rep(lambda i: "local a%d:dword\n" % i, n) + "ret\np endp\n" + E,
    "uses": lambda n: H32 + "p proc c uses " + " ".join(["esi", "edi", "ebx"][i % 3] for i in range(n)) + "\nret\np endp\n" + E,
    "uses64": lambda n: ".code\np proc frame uses " + " ".join(["rsi", "rbx", "xmm6", "xmm7"][i % 4] for i in range(n)) + "\nret\np endp\n" + E,
    "mparams": lambda n: "m macro " + ",".join("a%d" % i for i in range(n)) + "\nendm\n" + H32 + "m " + ",".join("1" for i in range(n)) + "\n" + E,
    "mlocals": lambda n: "m macro\nlocal " + ",".join("a%d" % i for i in range(n + 1)) + "\na0:\nendm\n" + H32 + "m\nm\n" + E,
    "margs": lambda n: "m macro a:vararg\nfor x,<a>\ndb x\nendm\nendm\n" + H32 + "m " + ",".join("1" for i in range(n)) + "\n" + E,
    "msubst": lambda n: "m macro a\ndb %s0\nendm\n" % ("a+" * n) + H32 + "m 12345678\n" + E,
    "record": lambda n: "r record " + ",".join("b%d:1" % i for i in range(n + 1)) + "\n" + H32 + "x r <" + ",".join("1" for i in range(n + 1)) + ">\nmov eax,mask b%d\n" % n + E,
    "members": lambda n: "s struct\n" + rep(lambda i: "m%d db ?\n" % i, n) + "s ends\n" + H32 + "x s <" + ",".join("1" for i in range(n)) + ">\n" + E,
    "union": lambda n: "s union\n" + rep(lambda i: "m%d db %d dup (?)\n" % (i, i + 1), n) + "s ends\n" + H32 + "x s <>\n" + E,
    "data": lambda n: H32 + "dd " + ",".join("1" for i in range(n + 1)) + "\n" + E,
    "strings": lambda n: H32 + "db " + ",".join("'ab'" for i in range(n + 1)) + "\n" + E,
    "operands": lambda n: H32 + "mov " + ",".join("eax" for i in range(n + 1)) + "\n" + E,
    "operandmem": lambda n: H32 + "vaddps " + ",".join("[eax]" for i in range(n + 1)) + "\n" + E,
    "plus": lambda n: H32 + "dd " + "+".join("1" for i in range(n + 1)) + "\n" + E,
    "unary": lambda n: H32 + "dd " + "-" * n + "1\n" + E,
    "nots": lambda n: H32 + "dd " + "not " * n + "1\n" + E,
    "dots": lambda n: H32 + "mov eax,[eax]" + ".x" * n + "\n" + E,
    "contin": lambda n: H32 + "db 0" + rep(lambda i: ",\\\n%d" % (i & 127), n) + "\n" + E,
    "contincomma": lambda n: H32 + "db 0" + rep(lambda i: ",\n%d" % (i & 127), n) + "\n" + E,
    "commentlong": lambda n: H32 + "nop ;" + "c" * (n * 9) + "\n" + E,
    "blanks": lambda n: H32 + "nop" + " " * (n * 9) + "; c\n" + E,
    "tabs": lambda n: H32 + "\t" * (n * 9) + "nop\n" + E,
    "line": lambda n: H32 + "db " + "0," * (n * 4) + "0\n" + E,
    "string": lambda n: H32 + "db \"" + "x" * (n * 9) + "\"\n" + E,
    "stringtext": lambda n: "a textequ <" + "x" * (n * 9) + ">\nb catstr a,a\nc catstr b,b\nd catstr c,c\n" + H32 + "e sizestr d\n" + E,
    "catchain": lambda n: "a0 textequ <abcdefgh>\n" + rep(lambda i: "a%d catstr a%d,<12345678>\n" % (i + 1, i), n) + H32 + "db \"a%d\"\n%%echo a%d\n" % (n, n) + E,
    "subst": lambda n: "a textequ <" + "y" * min(n, 200) + ">\n" + H32 + "%db \"" + "a " * n + "\"\n" + E,
    "textchain": lambda n: "a0 textequ <1>\n" + rep(lambda i: "a%d textequ <a%d>\n" % (i + 1, i), n) + H32 + "dd a%d\n" % n + E,
    "number": lambda n: H32 + "dd " + "1" * (n + 1) + "\ndq 0" + "f" * n + "h\n" + E,
    "binary": lambda n: H32 + "dq " + "1" * (n + 1) + "b\n" + E,
    "float": lambda n: H32 + "dq " + "1" * n + "." + "1" * n + "\ndt 1.0e%d\nreal4 1.%se-%d\n" % (n, "0" * n + "1", n) + E,
    "hexfloat": lambda n: H32 + "real4 0%sr\nreal8 0%sr\nreal10 0%sr\n" % tuple(["f" * n] * 3) + E,
    "echo": lambda n: "echo " + "z" * (n * 9) + "\n" + H32 + E,
    "error": lambda n: ".err <" + "z" * (n * 9) + ">\n" + H32 + E,
    "badname": lambda n: H32 + "mov eax," + "z" * (n * 9) + "\n" + E,
    "badline": lambda n: H32 + "z" * (n * 4) + " " + "y" * (n * 4) + "\n" + E,
    "name": lambda n: H32 + "z" * n + ": jmp " + "z" * n + "\npublic " + "z" * n + "\n" + E,
    "procname": lambda n: H32 + "z" * n + " proc c a1:dword\nlocal l1:dword\nret\n" + "z" * n + " endp\ninvoke " + "z" * n + ",1\n" + E,
    "extname": lambda n: H32 + "extern c " + "z" * n + ":dword\nmov eax," + "z" * n + "\n" + E,
    "segname": lambda n: ".686\n" + "z" * n + " segment 'c" + "y" * n + "'\nnop\n" + "z" * n + " ends\n" + E,
    "groupname": lambda n: ".686\ng" + "z" * n + " group a\na segment\nnop\na ends\n" + E,
    "macroname": lambda n: "z" * n + " macro\nendm\n" + H32 + "z" * n + "\n" + E,
    "structname": lambda n: "z" * n + " struct\n" + "y" * n + " dd ?\n" + "z" * n + " ends\n" + H32 + "x " + "z" * n + " <>\nmov eax,x." + "y" * n + "\nmov eax,[eax]." + "z" * n + "." + "y" * n + "\n" + E,
    "include": lambda n: "include " + "z" * n + "\n" + H32 + E,
    "includelib": lambda n: "includelib " + "z" * n + "\n" + H32 + E,
    "incbin": lambda n: H32 + "incbin " + "z" * n + "\n" + E,
    "modname": lambda n: "name " + "z" * n + "\n" + H32 + E,
    "title": lambda n: "title " + "z" * (n * 4) + "\nsubtitle " + "z" * (n * 4) + "\n" + H32 + E,
    "comment": lambda n: "comment ^ " + "z" * (n * 4) + "\n" + "y" * (n * 4) + "\n^\n" + H32 + E,
    "labels": lambda n: H32 + rep(lambda i: "l%d: jmp l%d\n" % (i, n - 1 - i), n) + E,
    "anon": lambda n: H32 + rep(lambda i: "@@: jmp @B\njmp @F\n", n) + "@@:\n" + E,
    "fix": lambda n: H32 + rep(lambda i: "dd offset l\n", n) + "l:\n" + E,
    "externs": lambda n: H32 + rep(lambda i: "extern e%d:dword\n" % i, n) + rep(lambda i: "dd e%d\n" % i, n) + E,
    "publics": lambda n: H32 + "public " + ",".join("l%d" % i for i in range(n + 1)) + "\n" + rep(lambda i: "l%d:\n" % i, n + 1) + E,
    "segs": lambda n: ".686\n" + rep(lambda i: "g%d segment\nnop\ng%d ends\n" % (i, i), n) + E,
    "group": lambda n: ".686\n" + rep(lambda i: "g%d segment\nnop\ng%d ends\n" % (i, i), n + 1) + "gg group " + ",".join("g%d" % i for i in range(n + 1)) + "\n" + E,
    "assume": lambda n: ".686\na segment\nassume " + ",".join("ds:a" for i in range(n + 1)) + "\na ends\n" + E,
    "pushctx": lambda n: H32 + rep(lambda i: "pushcontext all\n", n) + rep(lambda i: "popcontext all\n", n) + E,
    "popctx": lambda n: H32 + rep(lambda i: "popcontext all\n", n) + E,
    "errors": lambda n: H32 + rep(lambda i: "mov eax,u%d\n" % i, n) + E,
    "org": lambda n: H32 + "org %d\nnop\norg 0\nnop\n" % (n * n) + E,
    "align": lambda n: H32 + "nop\nalign %d\nnop\n" % n + E,
    "align2": lambda n: H32 + "nop\nalign %d\nnop\n" % (1 << (n % 24)) + E,
    "dupcount": lambda n: H32 + "db %d dup (1,2)\nx db %d dup (?)\n" % (n * n, n * n) + E,
    "gapjmp": lambda n: H32 + "jz l\ndb %d dup (0)\nl: jmp l\n" % n + E,
    "unwind": lambda n: ".code\np proc frame\n" + rep(lambda i: "push rbx\n.pushreg rbx\n", n) + ".endprolog\nret\np endp\n" + E,
    "unwindsave": lambda n: ".code\np proc frame\n" + rep(lambda i: "movaps [rsp+%d],xmm6\n.savexmm128 xmm6,%d\n" % (i * 16, i * 16), n) + ".endprolog\nret\np endp\n" + E,
    "strlit": lambda n: ".data\nv db 0\n.code\nf proto :ptr\np proc frame\n" + rep(lambda i: "invoke f,\"s%d\"\n" % i, n) + "ret\np endp\n" + E,
    "strlit1": lambda n: ".data\nv db 0\n.code\nf proto :ptr\np proc frame\ninvoke f,\"%s\"\nret\np endp\n" % ("s" * n) + E,
    "invokeaddr": lambda n: H32 + "f proto c :vararg\ninvoke f" + ",addr f" * n + "\n" + E,
    "invokelong": lambda n: H32 + "f proto c :dword\ninvoke f,1" + "+1" * n + "\n" + E,
    "vararg64": lambda n: "f proto :vararg\n.data\nv db 0\n.code\np proc frame\ninvoke f" + ",1" * n + "\ninvoke f" + ",xmm0" * (n // 2) + "\ninvoke f" + ",addr v" * (n // 4) + "\ninvoke f" + ",\"a\"" * (n // 2) + "\nret\np endp\n" + E,
    "vararg32": lambda n: H32 + "f proto c :vararg\n.data\nv db 0\n.code\ninvoke f" + ",1" * n + "\ninvoke f" + ",al" * (n // 2) + "\ninvoke f" + ",addr v" * (n // 4) + "\ninvoke f" + ",\"a\"" * (n // 2) + "\n" + E,
    "vector64": lambda n: ".code\np proc vectorcall " + ",\n".join("a%d:%s" % (i, ["qword", "real8", "xmmword", "dword"][i % 4]) for i in range(n)) + "\nret\np endp\nq proc frame\ninvoke p" + ",\n1" * n + "\ninvoke p" + ",xmm0" * n + "\nret\nq endp\n" + E,
    "paramsc64": lambda n: ".code\np proc " + ",\n".join("a%d:%s" % (i, ["qword", "real8", "byte", "dword"][i % 4]) for i in range(n)) + "\nret\np endp\nq proc frame\ninvoke p" + ",\n1" * n + "\ninvoke p" + ",xmm0" * n + "\nret\nq endp\n" + E,
    "struct64": lambda n: "s struct\n" + "a db ?\n" + rep(lambda i: "a%d db ?\n" % i, n) + "s ends\n.data\nv s <>\n.code\np proc x:s,y:ptr s\nret\np endp\nq proc frame\ninvoke p,v,addr v\nret\nq endp\n" + E,
    "paramsmix": lambda n: H32 + "".join("p%s proc %s %s\nret\np%s endp\ninvoke p%s%s\n" % (l, l, ",\n".join("a%d:%s" % (i, ["dword", "byte", "qword", "word"][i % 4]) for i in range(n)), l, l, ",1" * n) for l in ("c", "stdcall", "pascal", "fastcall")) + E,
    "forlit": lambda n: H32 + ".for (%s:eax:%s)\nnop\n.endfor\n" % (",".join("al='a'" for i in range(n)), ",".join("cl='b'" for i in range(n))) + E,
    "forinc": lambda n: H32 + ".for (%s:eax < %s1:%s)\nnop\n.endfor\n" % (",".join("eax=%d" % i for i in range(n)), "1+" * n, ",".join("ecx++" for i in range(n))) + E,
    "forcolons": lambda n: H32 + ".for (eax=0" + ":" * n + ")\n.endfor\n.for (" + "'" * n + ":eax:" + "'" * n + "\n.endfor\n" + E,
    "proto": lambda n: "f proto c " + ",".join(":dword" for i in range(n + 1)) + "\n" + H32 + E,
    "typedef": lambda n: "t0 typedef dword\n" + rep(lambda i: "t%d typedef ptr t%d\n" % (i + 1, i), n) + H32 + "x t%d 0\n" % n + E,
    "typeptr": lambda n: "t typedef " + "ptr " * n + "dword\n" + H32 + "x t 0\n" + E,
    "linnum": lambda n: H32 + "nop\n" * n + E,
    "instr": lambda n: "a textequ <" + "ab" * n + ">\nb instr 1,a,<ba>\nc substr a,%d\nd substr a,1,%d\n" % (max(n, 1), n) + H32 + "db b\n" + E,
    "forc": lambda n: H32 + "forc x,<" + "1" * n + ">\ndb x\nendm\n" + E,
    "percent": lambda n: H32 + "%" * n + "db 1\n" + E,
    "amp": lambda n: "m macro a\ndb a%s1\nendm\n" % ("&" * n) + H32 + "m 1\n" + E,
    "bang": lambda n: "a textequ <%sx>\n" % ("!" * n) + H32 + E,
    "quote": lambda n: H32 + "db '%s'\n" % ("''" * n) + E,
    "iflong": lambda n: "if " + "1 and " * n + "1\nendif\n" + H32 + E,
    "ifidn": lambda n: "ifidn <%s>,<%s>\nendif\n" % ("x" * n * 2, "x" * n * 2) + H32 + E,
    "optlist": lambda n: "option " + ",".join("casemap:none" for i in range(n + 1)) + "\n" + H32 + E,
    "nokeyword": lambda n: "option nokeyword:<" + " ".join(["mov", "add", "sub", "lea"][i % 4] for i in range(n + 1)) + ">\n" + H32 + E,
    "rename": lambda n: "option renamekeyword:<mov>=" + "z" * n + "\n" + H32 + "z" * n + " eax,1\n" + E,
    "codepad": lambda n: H32 + rep(lambda i: "vaddps zmm1{k1}{z},zmm2,[eax]\n", n) + E,
    "deco": lambda n: H32 + "vaddps zmm1%s,zmm2,zmm3\n" % ("{k1}" * n) + E,
    "deco2": lambda n: H32 + "vaddps zmm1{%s},zmm2,zmm3\nvaddps zmm1,zmm2,[eax]{%s}\n" % ("k" * n, "1" * n) + E,
}
NS = list(range(0, 14)) + [15, 16, 17, 19, 20, 21, 31, 32, 33, 39, 40, 41, 49, 50, 51, 63, 64, 65, 71, 96, 99, 100, 127, 128, 129, 200, 246, 247, 248, 254, 255, 256, 257, 258, 300, 500, 512, 513, 600]


def g_nest():
    for k in NEST:
        for n in (NS if not T else list(range(0, 1030))):
            s = NEST[k](n)
            w = ".code\np" in s or "frame" in s
            for o in ([["-win64", "-Zi", "-Fl"], ["-elf64"]] if w else [["-coff", "-Zi", "-Fl"], ["-omf", "-Fl"]] if ".686" in s else [["-omf", "-Zd"]]):
                yield "nest%d:%s" % (n, k), s, o


FAM = {"nesting": g_nest, "matrix": g_matrix, "lines": g_lines, "tokens": g_tokens, "lengths": g_long, "directives": g_dirs}
for f in FAM:
    if os.environ.get("C23FAM", f) == f:
        ck.explore(f, FAM[f], judge, limit=4000)
ck.finish("no memory error, crash or hang on any of the inputs", validated=ck.n["assemblies"])

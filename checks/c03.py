"""C03 branches: all arrangements of branches, labels and fillers whose distances sweep over the limits of the short form, in 16, 32 and
64-bit code, against the least fixed point of the layout equations; forced distances, short-only branches, OPTION LJMP, prefixes,
anonymous labels and $-relative targets; cascades in which each expansion causes the next; alignment between branch and target."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
import objfmt

ck = Check("C03")
T = ck.thorough
MODES = {"86n": (" .8086\n option noljmp\n", "use16", 16, "-omf"), "86": (" .8086\n", "use16", 16, "-omf"), "16": (" .386\n", "use16", 16, "-omf"), "32": (" .386\n", "use32", 32, "-elf"), "32c": (" .586\n", "use32", 32, "-coff"),
         "64": ("", "use64", 64, "-elf64"), "64w": ("", "use64", 64, "-win64")}
RD = {"-omf": objfmt.omf, "-elf": objfmt.elf, "-elf64": objfmt.elf, "-coff": objfmt.coff, "-win64": objfmt.coff}


def forms(mode, kind):
    """[(length, bytes in front of the displacement, displacement size)], shortest first"""
    bits = MODES[mode][2]
    w = 2 if bits == 16 else 4
    k, _, how = kind.partition(" ")
    if how == "word":            # the displacement size is forced by the operand
        pass
    if k == "jmp":
        f = [(2, b"\xeb", 1), (1 + w, b"\xe9", w)]
    elif k == "bndjmp":
        f = [(3, b"\xf2\xeb", 1), (2 + w, b"\xf2\xe9", w)]
    elif k in ("jz", "jg"):
        c = 4 if k == "jz" else 15
        if mode == "86n":
            f = [(2, bytes([0x70 + c]), 1)]
        elif mode == "86":
            f = [(2, bytes([0x70 + c]), 1), (5, bytes([0x70 + (c ^ 1), 3, 0xe9]), 2)]
        else:
            f = [(2, bytes([0x70 + c]), 1), (2 + w, bytes([0x0f, 0x80 + c]), w)]
    elif k == "call":
        f = [(1 + w, b"\xe8", w)]
    else:
        op = {"loop": 0xe2, "loope": 0xe1, "loopne": 0xe0, "jcxz": 0xe3, "jecxz": 0xe3, "jrcxz": 0xe3, "loopw": 0xe2, "loopd": 0xe2}[k]
        size = {"jcxz": 16, "jecxz": 32, "jrcxz": 64, "loopw": 16, "loopd": 32}.get(k, bits)
        p = b"\x67" if size != bits else b""
        return [(2 + len(p), p + bytes([op]), 1)]
    if how == "short":
        f = f[:1]
    if how == "near":
        f = f[-1:]
    return f


TXT = {"bndjmp": "bnd jmp"}


def fits(d, n):
    return -(1 << 8 * n - 1) <= d < 1 << 8 * n - 1


def solve(mode, prog):
    """least fixed point -> (bytes, positions) or None: no layout without an out of range branch"""
    idx = [i for i, it in enumerate(prog) if it[0] == "j"]
    F = {i: forms(mode, prog[i][1]) for i in idx}
    sel = {i: 0 for i in idx}
    while True:
        pos, lab, at = 0, {}, {}
        for i, it in enumerate(prog):
            at[i] = pos
            if it[0] == "j":
                pos += F[i][sel[i]][0]
            elif it[0] == "f":
                pos += it[1]
            elif it[0] == "a":
                pos += -pos % it[1]
            else:
                lab[it[1]] = pos
        again = False
        for i in idx:
            n, h, w = F[i][sel[i]]
            d = target(prog, i, lab, at) - (at[i] + n)
            if w == 1 and not fits(d, 1):
                if sel[i] + 1 == len(F[i]):
                    return None
                sel[i] += 1
                again = True
        if not again:
            break
    out = b""
    for i, it in enumerate(prog):
        if it[0] == "j":
            n, h, w = F[i][sel[i]]
            d = target(prog, i, lab, at) - (at[i] + n)
            out += h + (d & (1 << 8 * w) - 1).to_bytes(w, "little")
        elif it[0] == "f":
            out += b"\x90" * it[1]
    return out


def target(prog, i, lab, at):
    t = prog[i][2]
    if isinstance(t, tuple):
        return (at[i] if t[0] == "$" else lab[t[0]]) + t[1]
    if t == "@f":
        return min(at[k] for k in range(i + 1, len(prog)) if prog[k] == ("l", "@@") or prog[k][:2] == ("l", "@@"))
    if t == "@b":
        return max(at[k] for k in range(i) if prog[k][:2] == ("l", "@@"))
    return lab[t]


def acceptable(mode, prog, got):
    """is this image a consistent layout, with no branch near that could be short? (another fixed point; alignment between)"""
    pos, lab, at, len_ = 0, {}, {}, {}
    aligned = any(it[0] == "a" for it in prog)
    for i, it in enumerate(prog):
        at[i] = pos
        if it[0] == "j":
            for n, h, w in forms(mode, it[1]):
                if got[pos:pos + len(h)] == h and len(got) >= pos + n:
                    len_[i] = n, h, w
                    break
            else:
                return "no %s at offset %#x" % (it[1], pos)
            pos += n
        elif it[0] == "f":
            if got[pos:pos + it[1]] != b"\x90" * it[1]:
                return "filler displaced at offset %#x" % pos
            pos += it[1]
        elif it[0] == "a":
            pos += -pos % it[1]
        else:
            lab[it[1]] = pos
    if pos != len(got):
        return "%d bytes, not %d" % (len(got), pos)
    for i, it in enumerate(prog):
        if it[0] != "j":
            continue
        n, h, w = len_[i]
        d = int.from_bytes(got[at[i] + n - w:at[i] + n], "little", signed=True)
        t = target(prog, i, lab, at)
        if at[i] + n + d != t and not (MODES[mode][2] == 16 and (at[i] + n + d - t) & 0xffff == 0):
            return "%s at offset %#x goes to %#x, its operand is at %#x" % (it[1], at[i], at[i] + n + d, t)
        fs = forms(mode, it[1])
        if w > 1 and fs[0][2] == 1 and not aligned:
            ds = t - (at[i] + (n if t > at[i] else fs[0][0]))
            if fits(ds, 1):
                return "%s at offset %#x is near, its distance as a short jump is %d" % (it[1], at[i], ds)
    return None


def text(mode, prog, u):
    l = []
    for it in prog:
        if it[0] == "j":
            k, _, how = it[1].partition(" ")
            t = it[2]
            if isinstance(t, tuple):
                t = "%s%+d" % (t[0] if t[0] == "$" else t[0] + u, t[1])
            elif t[0] != "@":
                t += u
            l.append(" %s %s%s" % (TXT.get(k, k), {"": "", "short": "short ", "near": "near ptr "}[how], t))
        elif it[0] == "f":
            if it[1]:
                l.append(" db %d dup (90h)" % it[1])
        elif it[0] == "a":
            l.append(" align %d" % it[1])
        elif it[1] == "@@":
            l.append("@@:")
        else:
            l.append(it[1] + u + (":" if len(it) < 3 else it[2]))
            if it[2:] == (" proc",):
                l.append(it[1] + u + " endp")
    return l


def show(prog):
    return " ".join({"j": "%s>%s", "f": "f%d", "a": "align%d", "l": "%s:"}[it[0]] % (it[1:3] if it[0] == "j" else it[1]) for it in prog)


def judge(ctx, case):
    tag, mode, group, opt = case
    head, use, bits, fmt = MODES[mode]
    ref = [solve(mode, p) for p in group]
    out = []

    def src(ix):
        s = head + (opt if "%" not in opt else "".join(opt.replace("%s", "a_%d" % i) for i in ix))
        for i in ix:
            s += "s%d segment para %s public 'CODE'\n" % (i, use) + (" assume cs:s%d\n" % i) + "\n".join(text(mode, group[i], "_%d" % i)) + "\ns%d ends\n" % i
        return s + "end\n"

    def go(ix):
        if not ix:
            return
        s = src(ix)
        r = ctx.srv().asm(s, ["-q", fmt])
        ctx.n["programs"] += len(ix)
        obj = None
        if r.exit == 0 and r.obj():
            try:
                obj = RD[fmt](r.obj())
            except objfmt.Bad as e:
                r.exit = "malformed: %s" % e
        if obj is None:
            if len(ix) > 1:
                go(ix[:len(ix) // 2]), go(ix[len(ix) // 2:])
            else:
                out.append(V("%s:%s:%s" % (tag, mode, show(group[ix[0]])), "no object: %s %s" % (r.exit, (r.err() or [r.text()])[:1]), source=s, opts=[fmt]))
            return
        for i in ix:
            sec = obj.sec("s%d" % i) or obj.sec("S%d" % i)
            got = sec.data if sec else b""
            if sec and sec.relocs:
                w = "relocations for branches inside a segment"
            elif got == ref[i]:
                continue
            else:
                w = acceptable(mode, group[i], got)
            if w:
                if len(ix) > 1:
                    n0 = len(out)
                    go([i])
                    if len(out) > n0:
                        continue
                    w += " (only together with the other programs of its file)"
                out.append(V("%s:%s:%s" % (tag, mode, show(group[i])), w, source=s, opts=[fmt], got=got.hex()[:400], expected=ref[i].hex()[:400]))
    go([i for i in range(len(group)) if ref[i] is not None])
    for i in range(len(group)):
        ctx.outcome(tag, mode, ref[i] is None)
        if ref[i] is None:
            r = ctx.srv().asm(src([i]), ["-q", fmt])
            ctx.n["programs"] += 1
            if r.exit in (0, None) or r.sig or "General" in r.text():
                out.append(V("%s:%s:%s" % (tag, mode, show(group[i])), "a short branch out of its range is not an error: %s %s" % (r.exit, r.text()[:80]), source=src([i]), opts=[fmt]))
    return out or None


def J(k, t):
    return ("j", k, t)


L = {x: ("l", x) for x in "abde"}


def weave(items, fills):
    p = []
    for i, it in enumerate(items):
        p.append(it)
        if i < len(fills) and fills[i]:
            p.append(("f", fills[i]))
    return tuple(p)


MAIN = ("86", "16", "32", "64")
SWEEP = range(112, 134)


def fillings(n, small, sweep):
    """one big filler in each place, small ones elsewhere; and the big one split in two"""
    for big in range(n):
        for s in itertools.product(small, repeat=n - 1):
            for b in sweep:
                f = list(s)
                f.insert(big, b)
                yield f
    for i, j in itertools.combinations(range(n), 2):
        for b in sweep:
            f = [0] * n
            f[i], f[j] = b // 2, b - b // 2
            yield f


def emit(tag, mode, it, n=24, opt=""):
    for g in chunks(it, n):
        yield tag, mode, g, opt


def g_two():
    """two branches and two labels in every order"""
    for mode in MAIN:
        def progs():
            for perm in itertools.permutations(range(4)):
                for k1, k2 in (("jmp", "jz"), ("jz", "jmp"), ("jmp", "jmp"), ("jg", "jz")) if T or mode in ("32", "16") else (("jmp", "jz"), ("jg", "jg")):
                    for t1, t2 in itertools.product("ab", repeat=2):
                        items = [(J(k1, t1), J(k2, t2), L["a"], L["b"])[x] for x in perm]
                        if perm.index(2) > perm.index(3) and (t1, t2) != ("a", "b"):
                            continue
                        for f in fillings(3, (0, 5) if T else (0,), SWEEP):
                            yield weave(items, f)
        yield from emit("two", mode, progs())


def g_three():
    """three branches, two or three labels, in every order"""
    for mode in ("32", "64", "16", "86") if T else ("32", "86"):
        def progs():
            for perm in itertools.permutations(range(5)):
                if perm.index(3) > perm.index(4):
                    continue
                for ts in itertools.product("ab", repeat=3):
                    kinds = ("jz", "jmp", "jg")
                    items = [(J(kinds[0], ts[0]), J(kinds[1], ts[1]), J(kinds[2], ts[2]), L["a"], L["b"])[x] for x in perm]
                    for f in fillings(4, (0,), range(114, 131, 1 if T else 2)):
                        yield weave(items, f)
        yield from emit("three", mode, progs())


def g_four():
    for mode in ("32", "16"):
        def progs():
            for perm in itertools.permutations(range(6)):
                if perm.index(4) > perm.index(5) or perm.index(0) > perm.index(1):
                    continue
                for ts in itertools.product("ab", repeat=4):
                    items = [(J("jmp", ts[0]), J("jmp", ts[1]), J("jz", ts[2]), J("jg", ts[3]), L["a"], L["b"])[x] for x in perm]
                    for f in fillings(5, (0,), range(112, 130, 2)):
                        yield weave(items, f)
        yield from emit("four", mode, progs())


def g_kinds():
    """every kind of branch with every forced distance, forward and backward, over all distances around both limits"""
    for mode in MODES:
        ks = ["jmp", "jz", "jg", "jmp short", "jz short", "jmp near", "call", "call near", "loop", "loope", "loopne"] if mode != "86n" else ["jz", "jg", "jz short", "jmp"]
        ks += {"86n": [], "86": ["jcxz"], "16": ["jcxz", "jecxz", "loopd", "loopw", "jz near"], "32": ["jcxz", "jecxz", "loopw", "jz near"], "32c": ["jecxz", "jz near", "bndjmp"],
               "64": ["jecxz", "jrcxz", "jz near", "loopd", "bndjmp"], "64w": ["jrcxz", "jz near", "bndjmp"]}[mode]
        def progs():
            for k in ks:
                for d in list(range(0, 4)) + list(range(118, 136)) + [250, 256, 260, 32760, 33000]:
                    yield (J(k, "a"), ("f", d), L["a"], ("f", 1))
                    yield (("f", 3), L["a"], ("f", d), J(k, "a"), ("f", 1))
                    yield (J(k, ("a", 3)), ("f", d), L["a"], ("f", 4))
                    yield (("f", 4), L["a"], ("f", d), J(k, ("a", -2)), ("f", 1))
                    yield (J(k, "@f"), ("f", d), ("l", "@@"), ("f", 1))
                    yield (("f", 3), ("l", "@@"), ("f", d), J(k, "@b"), ("l", "@@"), ("f", 1))
                for d in list(range(-132, -120)) + [-1, 0, 2, 3, 5] + list(range(122, 136)):
                    yield (("f", 140), J(k, ("$", d)), ("f", 150))
        yield from emit("kind", mode, progs(), 12)


def g_cascade():
    """branches each of which becomes near only because the next one does"""
    for mode in MAIN:
        def progs():
            for n in list(range(1, 24 if not T else 60)) + ([100, 250, 300, 470] if T else [60, 130, 300]):
                for k in ("jmp", "jz"):
                    for last in (-1, 0, 1, 2):
                        fs = forms(mode, k)
                        grow = fs[-1][0] - 2
                        # forward: J1 [J2 fill] ... each jump crosses the next one's start
                        p = []
                        for i in range(n):
                            p.append(J(k, "x%d" % i))
                            p.append(("f", 64 - 2 - (2 if i else 0)))
                            if i >= 1:
                                p.append(("l", "x%d" % (i - 1)))
                                p.append(("f", 3))
                        p += [("f", 62 + last), ("l", "x%d" % (n - 1)), ("f", 1)]
                        yield tuple(p)
                        # backward: each jump goes back over the previous one
                        p = [("l", "x0")]
                        for i in range(n):
                            p += [("f", 60), ("l", "x%d" % (i + 1)), ("f", 62 + (last if i == 0 else 0)), J(k, "x%d" % i)]
                        yield tuple(p + [("f", 1)])
                        # nested: all jumps first, labels behind
                        for order in (1, -1):
                            p = [J(k, "x%d" % i) for i in range(n)] + [("f", max(0, 126 - 2 * n + last))]
                            for i in range(n)[::order]:
                                p += [("l", "x%d" % i), ("f", 1)]
                            yield tuple(p)
        yield from emit("cascade", mode, progs(), 4)


def g_align():
    """alignment between branch and target: expansion moves the padding"""
    for mode in MAIN:
        def progs():
            for al in (2, 4, 16):
                for perm in itertools.permutations(range(5)):
                    if perm.index(2) > perm.index(3):
                        continue
                    for t1, t2 in itertools.product("ab", repeat=2):
                        items = [(J("jmp", t1), J("jz", t2), L["a"], L["b"], ("a", al))[x] for x in perm]
                        for big in range(4):
                            for b in range(108, 132, 1 if T else 2):
                                f = [0] * 4
                                f[big] = b
                                yield weave(items, f)
        yield from emit("align", mode, progs())


def g_labels():
    """the kind of the label: near label, LABEL NEAR, PROC, public, EXTERNDEF and PROTO declared before or behind"""
    for mode in MODES:
        def progs(proto=False):
            for k in ("jmp", "jz", "call"):
                for d in list(range(122, 131)) + [3]:
                    for form in ((":", " label near", " label proc", "::", " proc") if not proto else (" proc",)):
                        yield (J(k, "a"), ("f", d), ("l", "a", form), ("f", 1))
                        yield (("f", 3), ("l", "a", form), ("f", d), J(k, "a"), ("f", 1))
        yield from emit("label", mode, progs(), 12)
        for decl in (" public %s\n", " externdef %s:near\n", " externdef %s:proc\n", " %s proto\n", " public %s\n externdef %s:near\n"):
            for g in chunks(progs("proto" in decl), 12):
                yield "decl", mode, g, decl


ck.explore("branch kinds and forced distances", g_kinds, judge)
ck.explore("kinds of labels and declarations", g_labels, judge)
ck.explore("two branches and two labels in every order", g_two, judge)
ck.explore("three branches in every order", g_three, judge)
if T:
    ck.explore("four branches in every order", g_four, judge)
ck.explore("cascades", g_cascade, judge)
ck.explore("alignment between branches and targets", g_align, judge)
ck.finish("every layout is the least fixed point of the layout equations, or consistent with no near branch that could be short; a short-only branch out of range is an error")

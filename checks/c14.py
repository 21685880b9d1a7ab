"""C14 Win64 unwind data: explicit prologues (all short sequences of directives, sizes at the encoding boundaries) and automatic ones (FRAME
procedures of many shapes), stepped instruction by instruction on an interpreter; at every instruction the unwinder must find the caller."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
import emu, inv64, unwind
from inv64 import *

ck = Check("C14", variants=("plain",))
T = ck.thorough
IMG = mlink.IMAGEBASE


HOMEEPI = "the epilogue reloads registers from the home area behind the pops, where the unwinder takes rsp for the procedure's"


class Walk:
    """steps a run and unwinds at each instruction"""
    def __init__(self, run, secs, base, ctx):
        self.run, self.ctx = run, ctx
        self.mem = [(base[n], d) for n, d in secs.items() if n != ".text"]
        self.ents = unwind.entries(secs.get(".pdata", b""))
        self.cache = {}
        self.home, self.known = set(), None
        e = run.e
        self.stkaddr = ctypes.addressof(e.stk)

    def rd(self, a, n):
        e = self.run.e
        if e.sb <= a <= e.sb + e.ns - n:
            return ctypes.string_at(self.stkaddr + a - e.sb, n)
        if TEXT <= a <= TEXT + len(e.orig) - n:
            return e.orig[a - TEXT:a - TEXT + n]
        for b, d in self.mem:
            if b <= a <= b + len(d) - n:
                return d[a - b:a - b + n]
        return None

    def at(self, want_rip, want_sp, regs, xmm):
        """complaint about unwinding here"""
        e = self.run.e
        rip = e.c.rip
        try:
            ip, r, x = unwind.virtual(self.rd, IMG, self.ents, rip, list(e.c.r), [bytes(e.c.x[k][:16]) for k in range(16)], self.cache)
        except unwind.Bad as b:
            if self.home and self.tail(rip):
                self.known = HOMEEPI
                return None
            return str(b)
        self.ctx.n["unwound"] += 1
        if (ip != want_rip or r[4] != want_sp) and self.home and self.tail(rip):
            self.known = HOMEEPI
            return None
        if ip != want_rip or r[4] != want_sp:
            return "unwinding gives rip %x rsp %x, the caller is at %x with rsp %x" % (ip, r[4] & (1 << 64) - 1, want_rip, want_sp)
        for k in (3, 5, 6, 7, 12, 13, 14, 15):
            if r[k] != regs[k]:
                if k in self.home:
                    self.known = "unwinding doesn't restore %s, which the prologue stored in the caller's home area" % REGN[k]
                    continue
                return "unwinding doesn't restore %s" % REGN[k]
        for k in range(6, 16):
            if x[k] != xmm[k]:
                return "unwinding doesn't restore xmm%d" % k
        return None

    def homes(self, rip):
        """registers a procedure without a frame register stores in its caller's home area before it pushes anything"""
        out, o = set(), rip - TEXT
        while 1:
            m = re.match(rb"(?:[\x66\xf2\xf3])?([\x40-\x4f]?)(\x0f[\x11\x29\x7f\xd6]|[\x88\x89])([\x44\x4c\x54\x5c\x64\x6c\x74\x7c])\x24.", self.run.e.orig[o:o + 12], re.S)
            if not m:
                break
            if m.group(2) == b"\x89":
                out.add((m.group(3)[0] >> 3 & 7) + (8 if m.group(1) and m.group(1)[0] & 4 else 0))
            o += m.end()
        return out & {3, 5, 6, 7, 12, 13, 14, 15}

    def tail(self, rip):
        """only pops and reloads from [rsp+n] up to the ret"""
        return re.match(rb"(?:\x41?[\x58-\x5f])*(?:[\x48\x4c]\x8b[\x44\x4c\x54\x5c\x64\x6c\x74\x7c]\x24.)+\xc3", self.run.e.orig[rip - TEXT:rip - TEXT + 120], re.S) is not None

    def steps(self, to, want_rip, want_sp, regs, xmm, limit=400):
        e = self.run.e
        for n in range(limit):
            if e.c.rip in to:
                return None, emu.STOPPED
            w = self.at(want_rip, want_sp, regs, xmm)
            if w:
                return self.where(w), None
            e.c.stop = 0
            s = e.l.xrun(ctypes.byref(e.c), ctypes.c_uint64(1))
            if s != emu.STEPS:
                return None, s
        return None, emu.STEPS

    def where(self, w):
        rip = self.run.e.c.rip
        inf = None
        for b, en, u in self.ents:
            if b <= rip - IMG < en:
                inf = self.cache.get(u)
                return "%s, at the procedure's offset %d (prologue %d): %s" % ("in the prologue" if inf and rip - IMG - b < inf.prolog else "behind the prologue", rip - IMG - b, inf.prolog if inf else -1, w) + " [%s]" % self.run.e.orig[rip - TEXT:rip - TEXT + 8].hex()
        return w


def judge_auto(ctx, case):
    name, items = case
    cf = CONF[name]
    r = ctx.srv().asm(module(cf, items), ("-q", cf.fmt, "-nomlib"))
    if r.exit or r.sig or not r.obj():
        if len(items) == 1:
            ctx.n["rejected"] += 1
            return V(key(cf, items[0]), "refused: " + r.text()[-200:], source=module(cf, items))
        return [w for it in items for w in [judge_auto(ctx, (name, [it]))] if w]
    try:
        secs, base = code_of(cf, r)
    except Exception as x:
        return V(key(cf, items[0]), "object file: %s" % x, source=module(cf, items))
    run = Run(cf, secs[".text"])
    wk = Walk(run, secs, base, ctx)
    out = []
    for n, it in enumerate(items):
        state = {}

        def watch(run, fat, bat):
            e = run.e
            if "rip" not in state:
                sp = e.c.r[4]
                state["rip"] = run.q(sp)
                wk.home, wk.known = (wk.homes(fat) if "rsp" in cf.head else set()), None
                state["sp"] = sp + 8
                state["regs"] = dict(run.entry)
                state["x"] = [run.x(k) for k in range(16)]
            r = wk.steps((bat, state["rip"]), state["rip"], state["sp"], state["regs"], state["x"])
            if r[1] == emu.STOPPED and e.c.rip != bat:
                return None, run.go(bat)
            return r
        w = run.call(ctx, n, it, watch)
        ctx.n["procs"] += 1
        if wk.known:
            out.append(V("rsp:home-saved", wk.known, source=module(cf, [it])))
        if w:
            out.append(V(classify(cf, it, w) or key(cf, it), w, source=module(cf, [it])))
        else:
            ctx.outcome(name, it[2], len(it[3]))
    return out


def classify(cf, it, w):
    return None


def gen_auto():
    rot = 0
    for name, cf in CONF.items():
        if not cf.frame:
            continue
        L = []
        for u in range(len(USES)):
            for lc in LOC:
                for sig in ((), ("dword",), ("real8", "byte"), ("qword",) * 3, ("byte", "qword", "real8", "ptr"), ("dword",) * 5, ("qword",) * 7):
                    rot += 1
                    L.append((sig, tuple(ARGS[p][(rot + 3 * j) % 3] for j, p in enumerate(sig)), uses_for(cf, u), lc, 0, ""))
        for c in range(0, len(L), 8):
            yield name, L[c:c + 8]


# ---- explicit prologues
BIGSTACK = 0x240000
ALLOC = [8, 16, 120, 128, 136, 144, 4096, 65536 * 8 - 8, 65536 * 8, 65536 * 8 + 8, 0x100000, 0x120000]
PUSHR = ["rbx", "rsi", "rdi", "r12", "r13", "r15", "rbp"]


def explicit(seq, n, handler, slack):
    """the procedure of a sequence: lines; ops: ('push', r), ('alloc', n), ('save', r, ofs), ('savex', k, ofs), ('frame', r, ofs)"""
    L = ["e%d proc frame%s" % (n, ":hnd" if handler else "")]
    und = []
    for o in seq:
        if o[0] == "push":
            L += [" push " + o[1], " .pushreg " + o[1]]
            und.insert(0, " pop " + o[1])
        elif o[0] == "alloc":
            L += [" sub rsp, %d" % o[1], " .allocstack %d" % o[1]]
            und.insert(0, " add rsp, %d" % o[1])
        elif o[0] == "save":
            L += [" mov [rsp+%d], %s" % (o[2], o[1]), " .savereg %s, %d" % (o[1], o[2])]
        elif o[0] == "savex":
            L += [" movups [rsp+%d], xmm%d" % (o[2], o[1]), " .savexmm128 xmm%d, %d" % (o[1], o[2])]
        else:
            L += [" lea %s, [rsp+%d]" % (o[1], o[2]), " .setframe %s, %d" % (o[1], o[2])]
        if slack:
            L.append(" nop")
    L.append(" .endprolog")
    L.append("b%d::" % n)
    for o in seq:
        if o[0] in ("push", "save"):
            fr = [x[1] for x in seq if x[0] == "frame"]
            if o[1] not in fr:
                L.append(" mov %s, 1234h" % o[1])
        elif o[0] == "savex":
            L.append(" xorps xmm%d, xmm%d" % (o[1], o[1]))
    fr = [x for x in seq if x[0] == "frame"]
    fx = {x[1] for x in fr}
    # restore what was saved by stores, from the frame
    depth = 0
    rest = []
    total = sum(8 if o[0] == "push" else o[1] if o[0] == "alloc" else 0 for o in seq)
    base = "rsp"
    if fr:
        L.append(" sub rsp, 48")            # what a procedure with a frame register may do
        base = fr[0][1]
        atf = 0
        for o in seq:
            if o is fr[0]:
                break
            atf += 8 if o[0] == "push" else o[1] if o[0] == "alloc" else 0
    for o in seq:
        if o[0] == "push":
            depth += 8
        elif o[0] == "alloc":
            depth += o[1]
        elif o[0] in ("save", "savex"):
            d = total - depth + o[2]                   # from the final rsp
            if fr:
                d = o[2] - depth + atf - fr[0][2]      # from the frame register
            rest.append((" mov %s, [%s%+d]" % (o[1], base, d)) if o[0] == "save" else " movups xmm%d, [%s%+d]" % (o[1], base, d))
    L += rest
    if fr:
        k = seq.index(fr[0])
        # back to the rsp after the last alloc/push
        d = (total - atf)
        # lea rsp,[fp+c] then the pops; allocations between pushes are undone one by one
        c = -fr[0][2] - d
        und2 = []
        first = und and und[0].startswith(" add")
        if first:
            c += int(und[0].split(",")[1])
            und2 = und[1:]
        else:
            und2 = und
        L.append(" lea rsp, [%s%+d]" % (base, c))
        L += und2
    else:
        L += und
    L += [" ret", "e%d endp" % n]
    return L


def ok_seq(seq):
    """directives as the x64 documentation orders them; None otherwise"""
    used = set()
    sl = sorted((o[2], 8 if o[0] == "save" else 16) for o in seq if o[0] in ("save", "savex"))
    if any(a + n > b for (a, n), (b, m) in zip(sl, sl[1:])):
        return None
    depth = alloc = 0
    nframe = 0
    allocs = 0
    for o in seq:
        if o[0] == "push":
            if alloc or o[1] in used:
                return None
            used.add(o[1])
        elif o[0] == "alloc":
            if nframe:
                return None
            allocs += 1
            if allocs > 1:
                return None
            alloc = o[1]
        elif o[0] == "save":
            if o[1] in used or o[2] + 8 > alloc:
                return None
            used.add(o[1])
        elif o[0] == "savex":
            if o[1] in used or o[2] + 16 > alloc:
                return None
            used.add(o[1])
        else:
            if nframe or o[1] not in used or o[2] > alloc:
                return None
            nframe = 1
    return seq


def gen_exp():
    A = [("alloc", n) for n in ALLOC]
    P = [("push", r) for r in PUSHR]
    S = [("save", "rdi", o) for o in (0, 8, 0x100, 65535 * 8, 65536 * 8, 65537 * 8, 0x100000, 0x100008)] + [("save", "r14", 16)]
    X = [("savex", k, o) for k, o in ((6, 0), (15, 16), (8, 0x200), (9, 65535 * 16), (10, 65536 * 16), (11, 65537 * 16), (12, 0x110000))]
    F = [("frame", "rbp", o) for o in (0, 16, 128, 240)] + [("frame", "r13", 32), ("frame", "rbx", 0)]
    alph = A + P + S + X + F
    seqs = []
    for n in range(0, 5 if T else 4):
        for s in itertools.product(alph, repeat=n):
            if ok_seq(s):
                seqs.append(s)
    # longer ones over the pairs of the big and the small
    for p in range(0, 8):
        for a in A:
            for s in [None] + S[:3] + S[4:6]:
                for x in [None] + X[:2] + X[4:5]:
                    for f in [None] + F[:4]:
                        t = tuple(P[(p + j) % 7] for j in range(p)) + (a,)
                        if f and ("push", f[1]) not in t:
                            t = (("push", f[1]),) + t
                        for perm in ((s, x, f), (f, s, x)) if not T else itertools.permutations((s, x, f)):
                            q = t + tuple(z for z in perm if z)
                            if ok_seq(q):
                                seqs.append(q)
    # many XMM registers
    seqs.append((("alloc", 0x200),) + tuple(("savex", k, 16 * (k - 6)) for k in range(6, 16)))
    seqs.append(tuple(P) + (("alloc", 0x110000),) + tuple(("savex", k, 0x100000 + 16 * (k - 6)) for k in range(6, 16)) + (("frame", "rbp", 240),))
    seen, out = set(), []
    for s in seqs:
        if s not in seen:
            seen.add(s)
            out.append(s)
    for c in range(0, len(out), 12):
        yield c // 12, out[c:c + 12]


def name_of(s):
    return ">".join("".join(str(x) + ("." if j < len(o) - 1 else "") for j, x in enumerate(o)) for o in s) or "empty"


def src_exp(c, seqs):
    L = ["option casemap:none", ".code", " dq 0, 0, 0, 0", "org %d" % DATAEND]
    for n in range(len(seqs)):
        L.append(" dq e%d, b%d" % (n, n))
    L.append("hnd: ret")
    L.append("org %d" % CODE)
    for n, s in enumerate(seqs):
        if n % 4 == 3:
            L.append("leaf%d proc\n nop\n ret\nleaf%d endp" % (n, n))
        L += explicit(s, n, (n + c) % 5 == 0, (n + c) % 2)
        if n == 5 and c % 3 == 0:
            L.append(".data\ndd 1\n.code")
    L.append(" db 16 dup (0f4h)\nend")
    return "\n".join(L)


def judge_exp(ctx, case):
    c, seqs = case
    src = src_exp(c, seqs)
    r = ctx.srv().asm(src, ("-q", "-win64", "-nomlib"))
    if r.exit or r.sig or not r.obj():
        if len(seqs) == 1:
            return V("exp:" + name_of(seqs[0]), "refused: " + r.text()[-300:], source=src)
        return [w for s in seqs for w in [judge_exp(ctx, (c, [s]))] if w]
    o = objfmt.coff(r.obj())
    base, at = {}, TEXT
    for s in o.secs:
        if s.name == ".text":
            base[s.name] = at
            at += (len(s.data) + 0xfff) & ~0xfff
    for s in o.secs:
        if s.name not in base:
            base[s.name] = at
            at += (s.size + 0xfff) & ~0xfff
    try:
        secs = {s.name: mlink.link("-win64", o, s.name, base, {}) for s in o.secs if s.name in (".text", ".pdata", ".xdata")}
    except Exception as x:
        return V("exp:" + name_of(seqs[0]), "object file: %s" % x, source=src)
    big = any(x[0] == "alloc" and x[1] > 0x8000 for s in seqs for x in s)
    run = Run(CONF["w0f"], secs[".text"], BIGSTACK if big else 0xa000)
    e = run.e
    wk = Walk(run, secs, base, ctx)
    out = []
    # the function table: one entry for each FRAME procedure, in order, with its bounds
    if len(wk.ents) != len(seqs):
        out.append(V("exp:table", "%d procedures, %d function table entries" % (len(seqs), len(wk.ents)), source=src))
        return out
    text = secs[".text"]
    hnd = None
    for n, s in enumerate(seqs):
        eat, bat = struct.unpack_from("<2Q", text, DATAEND + 16 * n)
        hnd = DATAEND + 16 * len(seqs) + TEXT
        b, en, u = wk.ents[n]
        if IMG + b != eat:
            out.append(V("exp:" + name_of(s), "the function table says %x, the procedure starts at %x" % (IMG + b, eat), source=src))
            continue
        try:
            inf = unwind.Info(wk.rd, IMG + u)
        except unwind.Bad as x:
            out.append(V("exp:" + name_of(s), str(x), source=src))
            continue
        hs = (n + c) % 5 == 0
        if hs != bool(inf.flags & 3) or hs and IMG + inf.handler != hnd:
            out.append(V("exp:handler", "FRAME%s: flags %d handler %s" % (":hnd" if hs else "", inf.flags, inf.handler and hex(inf.handler)), source=src))
        if inf.prolog != bat - eat:
            out.append(V("exp:" + name_of(s), "prologue size %d, .ENDPROLOG is at %d" % (inf.prolog, bat - eat), source=src))
        if u & 3:
            out.append(V("exp:" + name_of(s), "unwind information isn't aligned", source=src))
        sp0 = (e.top - 0x200 & ~15) - 8
        e.reset_image()
        regs = {R[k]: v for k, v in INIT.items()}
        regs[5] = 0x7172737475767778
        e.setup(eat, regs, sp=sp0)
        e.c.r[4] = sp0
        for k in range(16):
            run.setx(k, xmmval(k))
        run.wr(sp0, struct.pack("<Q", TEXT + 16))
        w, st = wk.steps((TEXT + 16,), TEXT + 16, sp0 + 8, regs, [xmmval(k) for k in range(16)])
        ctx.n["procs"] += 1
        if not w and st != emu.STOPPED:
            w = "the procedure ends with: %s" % emu.NAME[st]
        if not w and e.c.rip - 1 >= IMG + en and False:
            w = "table end"
        if w:
            out.append(V("exp:" + name_of(s), w, source=src_exp(c, [s])))
        else:
            ctx.outcome("exp", len(s), tuple(x[0] for x in s))
        # the entry ends behind the ret
        if text[IMG + en - TEXT - 1] != 0xc3:
            out.append(V("exp:end:" + name_of(s), "the function table entry ends at %x, not behind the ret" % (IMG + en), source=src))
    return out


ck.explore("explicit", gen_exp, judge_exp)
ck.explore("automatic", gen_auto, judge_auto)
ck.assume += ["an interpreter (harness/xemu.c) stands for the processor, harness/unwind.py for RtlVirtualUnwind",
              "prologue directives in the order the x64 documentation gives: pushes, one allocation, saves and the frame register"]
ck.finish("explicit prologues: every legal sequence of up to 3 directives (thorough: 4) over 7 pushes, 12 allocation sizes and 16 save slots on both sides of every encoding limit and 6 frame register settings, plus longer ones (up to 7 pushes, the allocation, "
          "a register, an XMM register, the frame register in several orders), with and without handlers and with code between the directives; automatic prologues: FRAME procedures of 7 modes x 9 USES sets x 8 LOCAL sets x 7 signatures.  At every "
          "instruction of every procedure the unwinder must find return address, stack pointer, rbx rbp rsi rdi r12-r15 and xmm6-15 of the caller; the function table must name each procedure exactly",
          states=ck.n["procs"], transitions=ck.n["unwound"])

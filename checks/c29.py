"""C29 CPU gating: after every sequence of cpu/coprocessor/extension directives (also on the command line, and saved and restored), every probe
instruction is accepted exactly when a reference model of the directives in force and a table of introduction levels say so."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *

ck = Check("C29", variants=("plain",))
T = ck.thorough

# -------------------------------------------------------------------------- the model --
# state: (cpu 0..7, privileged, fpu 0=none 1=87 2=287 3=387, extension set)
LV = {"8086": 0, "186": 1, "286": 2, "286c": 2, "386": 3, "386c": 3, "486": 4, "586": 5, "686": 6, "x64": 7, "amd64": 7}
SSE = frozenset("sse")
DIRS = {}
for k, v in LV.items():
    DIRS["." + k] = ("cpu", v, False)
    if k in ("286", "386", "486", "586", "686", "x64"):
        DIRS[".%sp" % k] = ("cpu", v, True)
for k, v in (("8087", 1), ("287", 2), ("387", 3), ("no87", 0)):
    DIRS["." + k] = ("fpu", v)
DIRS[".mmx"] = ("ext", frozenset(["mmx"]))
DIRS[".k3d"] = ("ext", frozenset(["mmx", "k3d"]))
DIRS[".xmm"] = ("ext", frozenset(["mmx", "sse"]))
ALLEXT = frozenset(["mmx", "k3d", "sse"])
INIT = (0, False, 1, frozenset())


def step(st, d):
    """(state after the directive, accepted)"""
    cpu, pm, fpu, ext = st
    x = DIRS[d]
    if x[0] == "cpu":
        cpu, pm = x[1], x[2]
        if fpu:
            fpu = 1 if cpu < 2 else 2 if cpu < 3 else 3
        if cpu == 7:
            ext = ALLEXT
    elif x[0] == "fpu":
        fpu = x[1]
    else:
        # an extension may be selected before its cpu is
        ext = x[1]
    return (cpu, pm, fpu, ext), True


def atcpu(st):
    cpu, pm, fpu, ext = st
    m = 1
    for lv, b in ((1, 2), (2, 4), (3, 8), (4, 16), (5, 32)):
        if cpu >= lv:
            m |= b
    if cpu >= 6:
        m = (m & ~32) | 64
    return m | (128 if pm else 0) | (256 if fpu >= 1 else 0) | (1024 if fpu >= 2 else 0) | (2048 if fpu >= 3 else 0)


# ---------------------------------------------------- probes: introduced by which cpu --
P = []


def pr(cpu, *insns, pm=False, fpu=None, ext=None):
    for t in insns:
        P.append((t, cpu, pm, fpu, ext))


pr(0, "aaa", "aad", "aam", "aas", "adc ax, bx", "add byte ptr [bx], 5", "and cx, 0ff0h", "cbw", "clc", "cld", "cli", "cmc", "cmpsb", "cwd", "daa",
   "das", "dec si", "div bx", "hlt", "idiv cl", "imul dx", "in al, dx", "inc word ptr [di]", "int 21h", "into", "iret", "jcxz $", "jmp $", "lahf",
   "lds si, [bx]", "lea ax, [bx+si]", "les di, [bp]", "lodsw", "loopne $", "mov ax, cs", "movsb", "mul bh", "neg ax", "nop", "not bl", "out 20h, al",
   "push ax", "popf", "rcl ax, 1", "shr bx, cl", "ret", "retf", "sahf", "scasb", "sti", "stosw", "test ax, bx", "wait", "xchg ax, bx", "xlat",
   "mov es, ax", "push cs", "pop ds", "jz $", "rep movsb", "lock inc word ptr [bx]")
pr(1, "bound ax, [bx]", "enter 4, 0", "leave", "insb", "insw", "outsb", "outsw", "pusha", "popa", "push 5", "push 1234h", "rol ax, 5",
   "shl byte ptr [bx], 3", "imul bx, cx, 10", "imul cx, 5", "sar dl, 7")
pr(2, "arpl ax, bx", "lar ax, bx", "lsl ax, bx", "sgdt [bx]", "sidt [bx]", "sldt ax", "smsw ax", "str ax", "verr ax", "verw bx")
pr(2, "clts", "lgdt fword ptr [bx]", "lidt fword ptr [bx]", "lldt ax", "lmsw ax", "ltr ax", pm=True)
pr(3, "bsf ax, bx", "bsr cx, dx", "bt ax, 5", "btc ax, bx", "btr word ptr [bx], 2", "bts ax, cx", "cdq", "cwde", "movsx ax, bl", "movzx eax, bx",
   "setz al", "setg byte ptr [bx]", "shld ax, bx, 3", "shrd ax, bx, cl", "mov eax, 5", "add ecx, edx", "push fs", "pop gs", "lfs si, [bx]",
   "lgs di, [bx]", "lss sp, [bx]", "imul ax, bx", "jecxz $", "pushad", "popad", "movsd", "stosd", "mov ax, fs", "iretd", "pushfd", "mov [eax], cl",
   "mov al, [ebx+ecx*4]", "push dword ptr 5", "xchg eax, edx", "insd", "test ecx, ecx", "neg edi")
# taken as non-privileged by UASM's instruction table: MOV with control and debug registers, INVD, WBINVD, INVLPG, RDMSR, WRMSR
pr(3, "mov eax, cr0", "mov cr3, eax", "mov eax, dr7", "mov dr0, ecx")
pr(4, "bswap eax", "cmpxchg ax, bx", "cmpxchg [bx], ecx", "xadd ax, bx")
pr(4, "invd", "wbinvd", "invlpg [bx]")
pr(5, "cpuid", "rdpmc", "rdtsc", "cmpxchg8b qword ptr [bx]", "rdmsr", "wrmsr")
pr(6, "cmovz ax, bx", "cmovg eax, ecx", "ud2", "sysenter")
pr(0, "fadd st, st(1)", "fld st(2)", "fstp dword ptr [bx]", "fild word ptr [bx]", "fninit", "finit", "fsqrt", "fprem", "fptan", "fpatan", "fyl2x",
   "f2xm1", "fldpi", "fnstsw [bx]", "fldcw [bx]", "fbld tbyte ptr [bx]", "fxch", "fcompp", "fnop", "ffree st(1)", fpu=1)
pr(0, "fnstsw ax", "fsetpm", fpu=2)
pr(0, "fsin", "fcos", "fsincos", "fprem1", "fucom", "fucomp st(1)", "fucompp", fpu=3)
pr(6, "fcomi st, st(1)", "fucomip st, st(1)", "fcmovb st, st(1)", fpu=1)
pr(5, "emms", "paddb mm0, mm1", "movd mm1, eax", "movq mm2, qword ptr [bx]", "psllw mm3, 2", "pand mm1, mm2", ext="mmx")
pr(5, "pfadd mm0, mm1", "femms", "pi2fd mm0, mm2", ext="k3d")
pr(6, "addps xmm0, xmm1", "movss xmm1, dword ptr [bx]", "sqrtps xmm1, xmm2", "addpd xmm0, xmm1", "cvtdq2pd xmm1, xmm2", "movdqa xmm1, xmm2",
   "paddq xmm1, xmm2", "haddps xmm0, xmm1", "lddqu xmm1, [bx]", "pshufb xmm1, xmm2", "pabsb xmm3, xmm4", "pmulld xmm1, xmm2",
   "crc32 eax, bl", "ptest xmm1, xmm2", "pcmpgtq xmm0, xmm1", "sfence", "mfence", "lfence", "ldmxcsr dword ptr [bx]", ext="sse")
P16 = P
P = []
# 64-bit: every cpu is at hand; instructions removed from or added by the 64-bit mode
GONE = ["aaa", "aad", "aam", "aas", "daa", "das", "into", "pusha", "popa", "pushad", "popad", "push cs", "push ds", "push es", "push ss", "pop ds", "pop es", "pop ss",
        "lds esi, [rbx]", "les edi, [rbx]", "bound eax, [rbx]", "arpl ax, bx"]
HERE = ["rdmsr", "swapgs", "sysret", "mov rax, 5", "add r8, r9", "movsxd rax, ecx", "cdqe", "cqo", "movsq", "stosq", "lodsq", "cmpsq", "scasq", "syscall", "jrcxz $", "iretq",
        "cmpxchg16b oword ptr [rbx]", "mov r10d, 4", "mov sil, 5", "push r15", "push fs", "pop gs", "mov al, [rip+5]", "pushfq", "popfq", "lea rax, [rbx+r12*8]",
        "fsin", "paddb mm0, mm1", "addpd xmm9, xmm10", "xadd r8, r9", "cpuid", "cmovz rax, rbx", "lahf", "enter 4, 0", "leave", "bswap r9", "fcomi st, st(1)", "mov rax, cr0", "mov cr8, rax", "mov rax, dr7", "lgdt tbyte ptr [rbx]", "wbinvd", "invlpg [rbx]"]
PRIV64 = ["clts"]
NOT32 = ["mov rax, 5", "add r8, r9", "movsxd rax, ecx", "cdqe", "cqo", "movsq", "stosq", "jrcxz $", "iretq", "mov r10d, 4", "mov sil, 5", "push r15", "swapgs",
         "pushfq", "addpd xmm9, xmm10"]
# names of 64-bit registers are plain undefined symbols in 32-bit code: reported in pass 2, which other errors prevent
NAME32 = ["mov rax, 5", "add r8, r9", "mov r10d, 4", "mov sil, 5", "push r15", "mov eax, [r8d]", "inc spl", "mov cl, r9b", "xchg r11w, ax", "call rcx"]
NOT32 = [p for p in NOT32 if p not in NAME32]


K3D = {p[0] for p in P16 if p[4] == "k3d"}


def ok16(p, st):
    t, cpu, pm, fpu, ext = p
    if st[0] < cpu or pm and not st[1]:
        return False
    if fpu is not None and st[2] < fpu:
        return False
    return ext is None or ext in st[3]


def run(ctx, key, head, probes, first, want, opts, cpuval, ext=()):
    """one assembly: the probes on lines first..., want[i] = accepted"""
    src = head + "\n".join(probes) + "\n"
    if cpuval is not None:
        src += "if @Cpu ne %d\n.err <CPUVAL>\nendif\n" % cpuval
    r = ctx.srv().asm(src + "s1 ends\nend\n", ["-bin", "-nomlib", "-e=2000"] + list(opts))
    ctx.outcome(key)
    ctx.n["assemblies"] += 1
    ctx.n["probes"] += len(probes)
    txt = r.text()
    if r.exit is None or r.sig or "A2169" in txt:
        return V(key + ":crash", txt[-300:], source=src)
    bad = {int(x) for x in re.findall(r"t\.asm\((\d+)\) : (?:Fatal )?[Ee]rror", txt)}
    ctx.sample(src[:2000])
    out, k3d = [], []
    for i, p in enumerate(probes):
        if (first + i not in bad) != want[i]:
            # (the listed finding: 3DNow! instructions after .xmm without .k3d)
            (k3d if not want[i] and p in K3D and "sse" in ext else out).append("%s is %s" % (p, "rejected" if want[i] else "accepted"))
    if cpuval is not None and "CPUVAL" in txt:
        out.append("@Cpu is not %d" % cpuval)
    if os.environ.get("VERIF_DUMP"):
        return [V(key, o) for o in out]
    res = []
    if out:
        res.append(V(key, "; ".join(out[:12]), source=src, opts=opts))
    if k3d:
        res.append(V("3dnow-after-xmm:" + key, "; ".join(k3d[:12]), source=src, opts=opts))
    return res or None


OPT = {"-0": ".8086", "-1": ".186", "-2": ".286", "-3": ".386", "-4": ".486", "-5": ".586", "-6": ".686", "-2p": ".286p", "-3p": ".386p", "-4p": ".486p",
       "-5p": ".586p", "-6p": ".686p"}


def judge_seq(ctx, case):
    opts, seq, where = case
    st, stack = INIT, []
    for o in sorted(opts, key=lambda o: o not in OPT):      # -fpN is independent of -N
        st, a = step(st, OPT[o] if o in OPT else {"-fp0": ".8087", "-fp2": ".287", "-fp3": ".387", "-fpc": ".no87"}[o])
    lines, want = [], []
    if where == "out":
        for d in seq:
            lines.append(d)
        lines.append("s1 segment use16 'CODE'")
    else:
        lines.append("s1 segment use16 'CODE'")
        lines += seq
    # directives are probes too
    for d in seq:
        if d == "pushcontext cpu":
            stack.append(st)
            a = True
        elif d == "popcontext cpu":
            a = bool(stack)
            if stack:
                st = stack.pop()
        else:
            st, a = step(st, d)
        want.append(a)
    if where == "out":
        want.append(True)
    else:
        want.insert(0, True)
    want += [ok16(p, st) for p in P16]
    probes = lines + [p[0] for p in P16]
    ctx.n["states"] = 1
    ctx.n["state %s" % (st,)] = 1
    return run(ctx, "%s|%s|%s" % (",".join(opts), ";".join(seq).replace(" ", "_"), where), "", probes, 1, want, opts, atcpu(st), st[3])


SEQ = sorted(DIRS) + ["pushcontext cpu", "popcontext cpu"]
SHORT = [".8086", ".186", ".286", ".286p", ".386", ".486p", ".586", ".686", ".686p", ".8087", ".287", ".387", ".no87", ".mmx", ".k3d", ".xmm",
         "pushcontext cpu", "popcontext cpu"]


def g_seq():
    for n in (0, 1, 2):
        for s in itertools.product(SEQ, repeat=n):
            for w in ("out", "in"):
                yield (), s, w
    for s in itertools.product(SHORT, repeat=3):
        yield (), s, "in" if hash_(s) & 1 else "out"
    if T:
        for s in itertools.product(SEQ, repeat=3):
            yield (), s, "out"
        for s in itertools.product(SHORT, repeat=4):
            yield (), s, "in"
    for o in sorted(OPT):
        yield (o,), (), "out"
        for s in SEQ:
            yield (o,), (s,), "out"
        for f in ("-fp0", "-fp2", "-fp3", "-fpc"):
            yield (o, f), (), "out"
            yield (f, o), (), "out"
            for s in SEQ:
                yield (o, f), (s,), "in"


def hash_(s):
    return sum(sum(map(ord, x)) for x in s)


# the same probes with a model, in 32- and in 64-bit code
def judge_mode(ctx, case):
    seq, bits, model = case
    st = INIT
    for d in seq:
        st, a = step(st, d)
    head = "\n".join(seq) + "\n"
    if model:
        head += ".model %s\n" % model
    head += "s1 segment %s 'CODE'\n" % ("use%d" % bits)
    if bits == 64:
        pr = HERE + GONE + PRIV64
        need = {"fsin": st[2] >= 3, "fcomi st, st(1)": st[2] >= 1, "addpd xmm9, xmm10": "sse" in st[3]}
        want = [need.get(p, True) for p in HERE] + [False] * len(GONE) + [st[1]] * len(PRIV64)
    else:
        q = [p for p in P16 if not re.search(r"\[(bx|bp|di|si)|jcxz", p[0])]
        pr = [p[0] for p in q] + NOT32
        want = [ok16(p, st) for p in q] + [False] * len(NOT32)
        b = run(ctx, "%s|%d|%s|names" % (";".join(seq), bits, model), head, NAME32, head.count("\n") + 1, [False] * len(NAME32), [], None)
        if b:
            return b
    return run(ctx, "%s|%d|%s" % (";".join(seq), bits, model), head, pr, head.count("\n") + 1, want, [], atcpu(st) if bits != 64 else None, st[3])


def g_mode():
    c = [d for d in sorted(DIRS) if DIRS[d][0] == "cpu"]
    o = [d for d in sorted(DIRS) if DIRS[d][0] != "cpu"]
    for d in c:
        lv = DIRS[d][1]
        for pre in [()] + [(x,) for x in c] + [(".no87",)]:
            for post in [()] + [(x,) for x in o] + [(x, y) for x in o for y in o]:
                if lv >= 3 and lv < 7:
                    yield pre + (d,) + post, 32, None
                    yield pre + (d,) + post, 32, "flat"
                if lv == 7:
                    yield pre + (d,) + post, 64, None
                    yield pre + (d,) + post, 64, "flat"


ck.explore("sequences of directives", g_seq, judge_seq)
ck.explore("32- and 64-bit code", g_mode, judge_mode)
ck.finish("every probe is accepted exactly when the directives in force include its cpu, coprocessor, extension and privilege",
          states=ck.n["probes"], transitions=ck.n["probes"], validated=ck.n["assemblies"])

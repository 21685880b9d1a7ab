"""C15 relocations: every form of reference x every kind of symbol x addends x object format.  The object file is read with readers written
from the format specifications and linked by a small linker (each section and external at a chosen address, each relocation applied as its
format says); the linked bytes must be the instruction written, with the address of the symbol plus the addend in its field."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
import objfmt
from objfmt import Bad, Sec, Sym
from mlink import Unsup, put, get, addr_of, link, sup, IMAGEBASE

ck = Check("C15")
T = ck.thorough
EXT = ("xn", "xb", "xw", "xd", "xs", "cm", "xp", "xf", "xq")


def h(s):
    return bytes.fromhex(s.replace(" ", ""))


# --------------------------------------------------------------- statements --
# (text, hex in front of the field, field size, kind, hex behind it, classes of symbols)
# kind: a address; r relative to the end of the instruction; nb image relative; sr section relative; fp far pointer; sg segment; lo hi low and
# high byte of the 16-bit offset
D32 = [("dd {S}", "", 4, "a", "", "cd"), ("dd offset {S}", "", 4, "a", "", "cd"), ("dd 1,{S},2", "01000000", 4, "a", "02000000", "cd"), ("dd 2 dup ({S})", "", 4, "a2", "", "cd"),
       ("dd imagerel {S}", "", 4, "nb", "", "cd?"), ("dd 7 dup (imagerel {S})", "", 4, "nb7", "", "cd?"), ("dd sectionrel {S}", "", 4, "sr", "", "l?")]
I32 = D32 + [
    ("mov eax,offset {S}", "b8", 4, "a", "", "cd"), ("mov ecx,dword ptr {S}", "8b0d", 4, "a", "", "cd"), ("mov eax,dword ptr {S}", "a1", 4, "a", "", "d"),
    ("mov byte ptr {S},al", "a2", 4, "a", "", "d"), ("mov ecx,dword ptr {S}[ebx]", "8b8b", 4, "a", "", "d"), ("mov ecx,dword ptr {S}[ebx*4]", "8b0c9d", 4, "a", "", "d"),
    ("mov ecx,dword ptr [ebp+esi*2+{S}]", "8b8c75", 4, "a", "", "d"), ("mov dword ptr {S},12345678h", "c705", 4, "a", "78563412", "d"), ("cmp byte ptr {S},1", "803d", 4, "a", "01", "d"),
    ("add dword ptr {S},1", "8305", 4, "a", "01", "d"), ("add word ptr {S},1234h", "668105", 4, "a", "3412", "d"), ("push offset {S}", "68", 4, "a", "", "cd"),
    ("push dword ptr {S}", "ff35", 4, "a", "", "d"), ("lea eax,{S}", "8d05", 4, "a", "", "cd"), ("mov dword ptr [ebx],offset {S}", "c703", 4, "a", "", "cd"),
    ("mov dword ptr [ebx+8],offset {S}", "c74308", 4, "a", "", "cd"), ("fld dword ptr {S}", "d905", 4, "a", "", "d"), ("imul eax,dword ptr {S},5", "6b05", 4, "a", "05", "d"),
    ("imul eax,dword ptr {S},12345678h", "6905", 4, "a", "78563412", "d"), ("shl dword ptr {S},3", "c125", 4, "a", "03", "d"), ("add eax,offset {S}", "05", 4, "a", "", "cd"),
    ("cmp ecx,offset {S}", "81f9", 4, "a", "", "cd"), ("call dword ptr {S}", "ff15", 4, "a", "", "d"), ("jmp dword ptr {S}", "ff25", 4, "a", "", "d"),
    ("movaps xmm1,xmmword ptr {S}", "0f280d", 4, "a", "", "d"), ("pshufd xmm1,xmmword ptr {S},3", "660f700d", 4, "a", "03", "d"),
    ("call {S}", "e8", 4, "r", "", "x"), ("jmp {S}", "e9", 4, "r", "", "x"), ("jz {S}", "0f84", 4, "r", "", "x"),
    ("vaddps zmm1,zmm2,zmmword ptr {S}", "62f16c48580d", 4, "a", "", "d"), ("vaddps zmm1,zmm2,zmmword ptr {S}[ebx]", "62f16c48588b", 4, "a", "", "d"),
    ("vmovdqa32 zmm1,zmmword ptr {S}[ebx]", "62f17d486f8b", 4, "a", "", "d"), ("vmovups zmmword ptr {S}[ebx+esi*4],zmm1", "62f17c48118cb3", 4, "a", "", "d"),
    ("mov dword ptr {S},offset {S}", "c705", 4, "aa", "", "d"),
]
D64 = [("dq {S}", "", 8, "a", "", "cd"), ("dq offset {S}", "", 8, "a", "", "cd"), ("dd {S}", "", 4, "a", "", "cd?"), ("dq 1,{S},2", "0100000000000000", 8, "a", "0200000000000000", "cd"),
       ("dd imagerel {S}", "", 4, "nb", "", "cd?"), ("dd 7 dup (imagerel {S})", "", 4, "nb7", "", "cd?"), ("dd sectionrel {S}", "", 4, "sr", "", "l?")]
I64 = D64 + [
    ("mov rax,offset {S}", "48b8", 8, "a", "", "cd"), ("mov r9,offset {S}", "49b9", 8, "a", "", "cd"), ("mov eax,offset {S}", "b8", 4, "a", "", "cd?"),
    ("mov ecx,dword ptr {S}", "8b0d", 4, "r", "", "cd"), ("mov eax,dword ptr {S}", "8b05", 4, "r", "", "d"), ("mov byte ptr {S},al", "8805", 4, "r", "", "d"),
    ("mov dword ptr {S},12345678h", "c705", 4, "r", "78563412", "d"), ("mov qword ptr {S},-2", "48c705", 4, "r", "feffffff", "d"), ("cmp byte ptr {S},1", "803d", 4, "r", "01", "d"),
    ("add dword ptr {S},1", "8305", 4, "r", "01", "d"), ("add word ptr {S},1234h", "668105", 4, "r", "3412", "d"), ("mov word ptr {S},1234h", "66c705", 4, "r", "3412", "d"),
    ("push qword ptr {S}", "ff35", 4, "r", "", "d"), ("lea rax,{S}", "488d05", 4, "r", "", "cd"), ("lea r10,{S}", "4c8d15", 4, "r", "", "cd"), ("fld dword ptr {S}", "d905", 4, "r", "", "d"),
    ("imul eax,dword ptr {S},5", "6b05", 4, "r", "05", "d"), ("imul r9,qword ptr {S},12345678h", "4c690d", 4, "r", "78563412", "d"), ("shl dword ptr {S},3", "c125", 4, "r", "03", "d"),
    ("call qword ptr {S}", "ff15", 4, "r", "", "d"), ("jmp qword ptr {S}", "ff25", 4, "r", "", "d"), ("movaps xmm1,xmmword ptr {S}", "0f280d", 4, "r", "", "d"),
    ("pshufd xmm1,xmmword ptr {S},3", "660f700d", 4, "r", "03", "d"), ("test byte ptr {S},1", "f605", 4, "r", "01", "d"), ("test dword ptr {S},12345678h", "f705", 4, "r", "78563412", "d"),
    ("vmovaps xmm1,xmmword ptr {S}", "c5f8280d", 4, "r", "", "d"), ("vpermilps xmm1,xmmword ptr {S},3", "c4e379040d", 4, "r", "03", "d"), ("vpalignr xmm1,xmm2,xmmword ptr {S},3", "c4e3690f0d", 4, "r", "03", "d"),
    ("vaddps zmm1,zmm2,zmmword ptr {S}", "62f16c48580d", 4, "r", "", "d"), ("vmovdqa32 zmm9,zmmword ptr {S}", "62717d486f0d", 4, "r", "", "d"),
    ("vmovupd zmmword ptr {S},zmm1", "62f1fd48110d", 4, "r", "", "d"), ("vaddpd zmm1{k1},zmm2,qword ptr {S}{1to8}", "62f1ed59580d", 4, "r", "", "d"),
    ("vpermilpd zmm1,zmmword ptr {S},3", "62f3fd48050d", 4, "r", "03", "d"), ("bt dword ptr {S},3", "0fba25", 4, "r", "03", "d"), ("shld dword ptr {S},eax,3", "0fa405", 4, "r", "03", "d"),
    ("call {S}", "e8", 4, "r", "", "x"), ("jmp {S}", "e9", 4, "r", "", "x"), ("jz {S}", "0f84", 4, "r", "", "x"), ("cmp qword ptr {S},5", "48833d", 4, "r", "05", "d"),
    ("and qword ptr {S},-12345678h", "488125", 4, "r", "88a9cbed", "d"), ("mov rcx,qword ptr {S}", "488b0d", 4, "r", "", "d"), ("cvtsi2sd xmm1,qword ptr {S}", "f2480f2a0d", 4, "r", "", "d"),
    ("xchg byte ptr {S},r9b", "44860d", 4, "r", "", "d"), ("movzx eax,word ptr {S}", "0fb705", 4, "r", "", "d"), ("crc32 eax,dword ptr {S}", "f20f38f105", 4, "r", "", "d"),
]
D16 = [("dw {S}", "", 2, "a", "", "cd"), ("dw offset {S}", "", 2, "a", "", "cd"), ("dd {S}", "", 2, "fp", "", "cdf"), ("dw seg {S}", "", 2, "sg", "", "cdf0"), ("dw 1,{S},2", "0100", 2, "a", "0200", "cd"),
       ("db low ({S})", "", 1, "lo", "", "cd?"), ("db high ({S})", "", 1, "hi", "", "cd?")]
I16 = D16 + [
    ("mov ax,offset {S}", "b8", 2, "a", "", "cd"), ("mov cx,word ptr {S}", "8b0e", 2, "a", "", "d"), ("mov ax,word ptr {S}", "a1", 2, "a", "", "d"), ("mov byte ptr {S},al", "a2", 2, "a", "", "d"),
    ("mov cx,word ptr {S}[bx]", "8b8f", 2, "a", "", "d"), ("mov cx,word ptr {S}[bx+si]", "8b88", 2, "a", "", "d"), ("mov word ptr {S},1234h", "c706", 2, "a", "3412", "d"),
    ("cmp byte ptr {S},1", "803e", 2, "a", "01", "d"), ("add word ptr {S},1", "8306", 2, "a", "01", "d"), ("push offset {S}", "68", 2, "a", "", "cd"), ("push word ptr {S}", "ff36", 2, "a", "", "d"),
    ("lea ax,{S}", "8d06", 2, "a", "", "d"), ("mov word ptr [bx],offset {S}", "c707", 2, "a", "", "cd"), ("les bx,dword ptr {S}", "c41e", 2, "a", "", "d"), ("mov ax,seg {S}", "b8", 2, "sg", "", "cdf0"),
    ("add ax,offset {S}", "05", 2, "a", "", "cd"), ("call {S}", "e8", 2, "r", "", "n"), ("jmp {S}", "e9", 2, "r", "", "n"), ("call far ptr {S}", "9a", 2, "fp", "", "yF"), ("jmp far ptr {S}", "ea", 2, "fp", "", "y"),
    ("call dword ptr {S}", "ff1e", 2, "a", "", "d"), ("jmp word ptr {S}", "ff26", 2, "a", "", "d"), ("push seg {S}", "68", 2, "sg", "", "cdf0"), ("call {S}", "9a", 2, "fp", "", "f"), ("jmp {S}", "ea", 2, "fp", "", "f"),
]
# symbols: name -> (home, offset, classes): c code d data l local(section relative possible) x branch target outside the host segment
SYM = {"dv": ("D", 0x10, "dl"), "dp": ("D", 0x14, "dl"), "dq_": ("D", 0x9000, "dl"), "ev": ("E", 8, "dl"), "tb": ("C", 3, "clx"), "tp": ("C", 0x31, "clx"), "tf": ("C", 0x91, "clx"),
       "xn": ("x", 0, "cx"), "xp": ("x", 0, "cx"), "xb": ("x", 0, "d"), "xd": ("x", 0, "d"), "xs": ("x", 0, "d"), "cm": ("x", 0, "d"), "xq": ("x", 0, "d")}
SYM16 = {"dv": ("D", 0x10, "dl"), "dp": ("D", 0x14, "dl"), "ev": ("E", 8, "dl"), "tb": ("C", 3, "cly"), "tp": ("C", 0x31, "cly"), "tf": ("C", 0x91, "cly"),
         "xn": ("x", 0, "cn"), "xb": ("x", 0, "d"), "xw": ("x", 0, "d"), "cm": ("x", 0, "d"), "xf": ("x", 0, "f")}
CODELEN = 3 + 0x2e + 1 + 0x5f + 1
DS = "dv byte 4 dup (0)\n public dp\ndp byte 100 dup(0)\n"


def code_seg(open_, close):
    return [open_, " db 3 dup (0cch)", "tb label near", " db 2eh dup (0cch)", " public tp", "tp proc", " nop", "tp endp", " db 5fh dup (0cch)", "tf label near", " nop", close]


def layout(cfg):
    """-> head, code block, data blocks, (host open, close), segment names, 1st bytes of the host"""
    fmt, bits, kind = cfg
    if kind == "flat":
        hd = " .686p\n .xmm\n .model flat\n option evex:1\n" + (" option offset:flat\n" if fmt == "-omf" else "") if bits == 32 else " option evex:1\n option prologue:none\n option epilogue:none\n"
        o = lambda n, c: "%s segment para '%s'" % (n, c)
    else:
        hd = " .686p\n .xmm\n option evex:1\n" if bits == 32 else " .286\n"
        o = lambda n, c: "%s segment para use%d public '%s'" % (n, bits, c)
    if fmt == "-macho64":
        # only the predefined segments: the host is the code segment, which holds the code symbols too
        seg = {"C": "__text", "D": "__data", "H": "__text"}
    else:
        seg = {"C": "C_", "D": "D_", "E": "E_", "H": "H_"}
    code = code_seg(o("C_", "CODE"), "C_ ends")
    if bits == 16:
        code = [x.replace("proc", "proc near") if x == "tp proc" else x for x in code]
    data = [o("D_", "DATA"), " db 10h dup (0)", "dv db 4 dup (0)", " public dp", "dp db 100 dup (0)"]
    if bits != 16:
        data += [" org 9000h", "dq_ dd 0"]
    data += ["D_ ends", o("E_", "DATA"), " db 8 dup (0)", "ev dd 2 dup (0)", "E_ ends"]
    ext = ["xs_t struct", " f1 dd ?", " f2 dd ?", "xs_t ends", " extern xb:byte", " comm cm:dword:4"]
    if bits == 16:
        ext += [" extern xn:near, xw:word, xf:far"] if kind == "seg" else [" extern xn:near, xw:word, xf:far"]
    else:
        ext += [" extern xn:near, xp:proc, xd:dword, xq:qword, xs:xs_t"]
    grp = ["DG_ group D_,E_"] if kind == "grp" else []
    asm = " assume cs:%s,ds:%s,es:%s" % ("H_", *{"grp": ("DG_", "DG_"), "seg": ("D_", "E_")}.get(kind, ("flat", "flat"))) if kind != "flat" else ""
    ho = o("H_", "CODE")
    if fmt == "-macho64":
        code = [".code"] + code[1:-1]
        data = [".data"] + data[1:data.index("D_ ends")]
        ho = ".code"
    return hd, code, data, ext, grp, ho, asm, seg


def want(cfg, st, sym, add, pos, base, ext, syms):
    """bytes of a statement at address pos in the linked host"""
    fmt, bits, kind = cfg
    text, pre, n, how, suf, cl = st
    home, off, _ = syms[sym]
    S = (ext[sym] if home == "x" else base[home] + off) + add
    pre, suf = h(pre), h(suf)
    if kind != "flat" and bits == 32:
        S -= ext["frame:" + sym] if home == "x" else min(base["D"], base["E"]) if kind == "grp" and home in "DE" else base[home] & ~15
    if how == "a2":
        return (S & 0xffffffff).to_bytes(4, "little") * 2
    if how == "nb7":
        return (S - IMAGEBASE & 0xffffffff).to_bytes(4, "little") * 7
    if how == "aa":
        return pre + (S & 0xffffffff).to_bytes(4, "little") * 2
    m = (1 << 8 * n) - 1
    if bits == 16:
        fr = ext["frame:" + sym] if home == "x" else min(base["D"], base["E"]) if kind == "grp" and home in "DE" else base[home] & ~15
        if how in ("a", "fp", "lo", "hi"):
            v = S - fr
            if how == "lo":
                v &= 255
            elif how == "hi":
                v = v >> 8 & 255
        elif how == "sg":
            v = fr >> 4
        else:
            v = S - (pos + len(pre) + n + len(suf))
        b = pre + (v & m).to_bytes(n, "little")
        if how == "fp":
            b += (fr >> 4).to_bytes(2, "little")
        return b + suf
    if how == "a":
        v = S
    elif how == "r":
        v = S - (pos + len(pre) + n + len(suf))
    elif how == "nb":
        v = S - IMAGEBASE
    elif how == "sr":
        v = off + add
    return pre + (v & m).to_bytes(n, "little") + suf


def bases(cfg, seg, high):
    fmt, bits, kind = cfg
    if bits == 16 or kind != "flat":
        b = {"C_": 0x12000, "D_": 0x23450, "E_": 0x23560, "H_": 0x34560}
        e = {x: 0x40000 + 0x1230 * (i + 1) for i, x in enumerate(EXT)}
        e["xn"] = 0x34560 + 0x4321
        for x in EXT:
            e["frame:" + x] = (e[x] - 0x800) & ~15
        e["frame:xn"] = 0x34560
    else:
        k = 0x123400000000 if high else 0
        b = {"C_": k + 0x412340, "D_": k + 0x523450, "E_": k + 0x634560, "H_": k + 0x745670}
        if fmt == "-macho64":
            b = {"__text": k + 0x412340, "__data": k + 0x523450}
        e = {x: k + 0x1234500 + 0x11110 * i for i, x in enumerate(EXT)}
        for x in EXT:
            e["frame:" + x] = 0
    return b, e


READ = {"-elf": objfmt.elf, "-elf64": objfmt.elf, "-coff": objfmt.coff, "-win64": objfmt.coff, "-omf": objfmt.omf, "-macho64": objfmt.macho}
CFG = [("-elf", 32, "flat"), ("-coff", 32, "flat"), ("-omf", 32, "flat"), ("-elf64", 64, "flat"), ("-win64", 64, "flat"), ("-macho64", 64, "flat"), ("-omf", 16, "seg"), ("-omf", 16, "grp"), ("-omf", 32, "seg"), ("-omf", 32, "grp")]
ADD = [0, 1, -1, 4, -2, 127, 128, 130, -128, -129, 255, 256, 0x1000, -0x1000] + ([x for k in range(3, 15) for x in ((1 << k) - 1, 1 << k, -(1 << k))] if T else [])


def source(cfg, order, stmts, syms, pad=5):
    hd, code, data, ext, grp, ho, asm, seg = layout(cfg)
    body = [ho] + ([asm] if asm else []) + [" db %d dup (0cch)" % pad] + [" " + s for s in stmts] + (["H_ ends"] if cfg[0] != "-macho64" else [])
    dd, gg = data, grp
    if order == 0:
        l = ext + code + dd + gg + body
    else:
        l = ext + (["D_ segment para use%d public 'DATA'" % cfg[1], "D_ ends", "E_ segment para use%d public 'DATA'" % cfg[1], "E_ ends"] + gg if gg or cfg[2] == "seg" else []) + body + code + dd
    return hd + "\n".join(l) + "\nend\n"


def stname(st, sym, add):
    a = "%+d" % add if add else ""
    if "{S}[" in st[0]:
        return st[0].replace("{S}", sym).replace("]", a + "]", 1)
    return st[0].replace("{S}", sym + a)


def judge(ctx, case):
    cfg, order, items, tag = case[:4]
    pad = case[4] if len(case) > 4 else 5
    fmt, bits, kind = cfg
    syms = SYM16 if bits == 16 else SYM
    seg = layout(cfg)[-1]
    out = []

    def run(part):
        if not part:
            return
        texts = [stname(*it) for it in part]
        src = source(cfg, order, texts, syms, pad)
        r = ctx.srv().asm(src, ["-q", fmt])
        ctx.n["files"] += 1
        if r.exit != 0 or not r.obj():
            if len(part) > 1:
                run(part[:len(part) // 2]), run(part[len(part) // 2:])
                return
            ctx.outcome(fmt, part[0][0][0], "rejected")
            if "?" not in part[0][0][5] or r.sig or r.exit is None or "General" in r.text():
                out.append(V("%s:%s%d%s:%s" % (tag, fmt, bits, kind, texts[0]), "rejected: %s" % (r.err() or [r.text()])[:1], source=src, opts=[fmt]))
            return
        why = trial(part, texts, r, 0)
        if why and fmt == "-elf64":
            # listed finding: UASM leaves the addend of a reference in the field, where Elf64_Rela ignores it
            w2 = trial(part, texts, r, 1)
            if not w2:
                out.append(V("elf64:addend-in-field", "%s: %s" % (texts[why[0]], why[1]), source=src, opts=[fmt]))
            why = w2
        if why is None:
            for it in part:
                ctx.outcome(fmt, it[0][0], "ok")
            return
        if len(part) > 1:
            n0 = len(out)
            run(part[:len(part) // 2]), run(part[len(part) // 2:])
            if len(out) == n0:
                out.append(V("%s:%s%d%s:%s" % (tag, fmt, bits, kind, texts[why[0]]), why[1] + " (only together with the other statements of its file)", source=src, opts=[fmt]))
            return
        if tag.startswith("family:"):
            out.append(V(tag[7:], "%s: %s" % (texts[0], why[1]), source=src, opts=[fmt]))
            return
        out.append(V("%s:%s%d%s:%s%s" % (tag, fmt, bits, kind, texts[0], " fwd" if order else ""), why[1], source=src, opts=[fmt]))

    def trial(part, texts, r, inline):
        why = None
        for high in (0, 1) if bits == 64 else (0,):
            b, e = bases(cfg, seg, high)
            bb = {k: b[v] for k, v in seg.items()}
            try:
                obj = READ[fmt](r.obj())
                img = link(fmt, obj, seg["H"], b, e, kind == "flat", inline)
            except Bad as x:
                why = (0, str(x))
                if high and any(it[0][2] == 4 and it[0][3] in ("a", "nb", "nb7") for it in part):
                    why = None
                    continue
                break
            pos = pos0 = pad + (CODELEN if fmt == "-macho64" and not order else 0)
            bb["C"] += 0 if fmt != "-macho64" or not order else pad + sum(len(want(cfg, it[0], it[1], 0, 0, bb, e, syms)) for it in part)
            for k, it in enumerate(part):
                w = want(cfg, it[0], it[1], it[2], b[seg["H"]] + pos, bb, e, syms)
                g = img[pos:pos + len(w)]
                if g != w and kind != "flat" and syms[it[1]][0] == "x" and "c" not in it[0][5]:
                    # a symbol of an unknown segment: its own frame or the one of the segment assumed for DS
                    w = want(cfg, it[0], it[1], it[2], b[seg["H"]] + pos, bb, dict(e, **{"frame:" + it[1]: min(bb["D"], bb["E"]) & ~15}), syms)
                if high and it[0][2] == 4 and it[0][3] in ("a", "nb", "nb7"):
                    g = w
                if len(w) > 6 and len(g) == len(w) and w[0] == 0x62 and w[5] & 0xc7 == 5:
                    g = g[:1] + bytes([g[1] | 0x20]) + g[2:]    # EVEX.B has no meaning without a base register
                if g != w:
                    why = (k, "linked: %s, expected %s" % (g.hex(), w.hex()))
                    break
                pos += len(w)
            if why:
                break
            if fmt == "-macho64" and order:
                pos += CODELEN
            if pos != len(img):
                why = (0, "the host segment has %d bytes, not %d" % (len(img), pos))
                break
        return why
    run(items)
    return out or None


def items(cfg, syms=None):
    fmt, bits, kind = cfg
    tab = {16: I16, 32: I32, 64: I64}[bits]
    S = syms or (SYM16 if bits == 16 else SYM)
    for st in tab:
        if fmt == "-omf" and "rel " in st[0]:
            continue
        for y, (home, off, cl) in S.items():
            if not set(cl) & set(st[5]):
                continue
            if fmt == "-macho64" and (home == "E" or "rel " in st[0] or home == "C" and st[0][0] == "j"):
                continue
            if fmt in ("-elf", "-elf64") and "imagerel" in st[0]:
                continue        # listed findings; see g_known()
            if kind != "flat" and bits == 32 and ("[ebp" in st[0] or (home == "x" and (st[3] in ("r", "aa") or "ptr" in st[0] or "lea" in st[0])) or home == "C" and "ptr {S}" in st[0]):
                continue        # frames and overrides depend on ASSUME: see the 16-bit configurations
            if kind == "seg" and y == "ev" and ("c" not in st[5] or "dword ptr {S}" in st[0]):
                continue        # needs an ES override; see I16
            if kind != "flat" and bits == 32 and home in "CD" and st[3] == "r":
                continue
            for a in ADD:
                if a and "0" in st[5]:
                    continue
                if st[3] == "fp" and home == "x" and a < 0 or home != "x" and off + a < 0:
                    continue
                if a and st[3] == "r" and "x" in st[5] and False:
                    continue
                yield st, y, a


def g_known():
    """defects of whole families, each shown by one member (the family is left out of items())"""
    t = {x[0]: x for x in I64}
    for k, cfg, text, sym in (("elf32:imagerel", CFG[0], "dd imagerel {S}", "dv"), ("elf64:imagerel", ("-elf64", 64, "flat"), "dd imagerel {S}", "dv")):
        yield cfg, 0, [(t[text], sym, 0)], "family:" + k


def g_all():
    for cfg in CFG:
        for order in (0, 1):
            for c in chunks(items(cfg), 40):
                yield cfg, order, c, "ref"


ck.explore("references", g_all, judge)
def g_pos():
    """the same fields at every position around the size limits of object records (OMF: 1024 bytes of data) and in files with many relocations"""
    for cfg in CFG:
        syms = SYM16 if cfg[1] == 16 else SYM
        some = {}
        for it in items(cfg):
            if it[2] in (0, 130):
                some.setdefault((it[0][3], len(it[0][4]) > 0, it[0][2], syms[it[1]][0] == "x", it[2]), it)
        some = list(some.values())
        span = range(1010, 1027) if cfg[0] == "-omf" else (4093,)
        if T:
            span = list(range(980, 1030)) + list(range(2040, 2054))
        for pad in span:
            if cfg[1] == 16 and pad > 60000:
                continue
            for it in some:
                yield cfg, 0, [it], "pos%d" % pad, pad
            yield cfg, 0, some, "pos%d" % pad, pad
        for it in some:
            for k in (300, 2000, 20000) if T else (300,):
                yield cfg, 0, [it] * k, "many%d" % k


ck.explore("positions", g_pos, judge)
ck.explore("known families", g_known, judge)
ck.finish("after linking, every field holds the address its reference denotes")

"""Modules shared by several checks: DIRTY (every statement that sets or shows assembler state, one small module each), CORPUS (the sources of
the repository's regression suite), and norm() (an output file without the time it was written)."""
import glob, os, re
from vlib import REPO

# every statement that leaves something behind, in a module of its own
H16 = ".model small\n"
H32 = ".686p\n.xmm\n.model flat,stdcall\n"
H64 = "option win64:7\n"
DIRTY = {
    "empty": "end\n", "noend": " db 1\n", "err": H32 + ".code\n foo bar\n mov al,ebx\nend\n", "errif": H32 + ".code\nif 1\n nop\n", "errproc": H32 + ".code\np1 proc a:dword\n ret\n",
    "errmac": "m macro a\n db a\n", "errstruc": "s struct\n a db ?\n", "errseg": "s segment\n db 1\n", "errhll": H32 + ".code\n.while eax\n nop\n", "errinc": "include nosuch.inc\nend\n",
    "fatal": " .err <stop>\n db 1\nend\n", "errnest": "m macro\n m\n endm\n m\nend\n", "erruser": H32 + ".code\n jmp nowhere\nend\n", "errctx": "pushcontext all\n radix 5\nend\n",
    "err2": H32 + ".code\nx:\nif1\n nop\nendif\n .errdef x\nend\n", "errlate": H32 + ".code\n mov eax,undefd\nend\n", "errblock": "comment ^\n abc\n",
    "radix16": ".radix 16\ns segment\n db 10\ns ends\nend\n", "casenone": "option casemap:none\ns segment\nA db 1\na db 2\ns ends\nend\n",
    "caseall": "option casemap:all\ns segment\nFoo db 1\n public Foo\ns ends\nend\n",
    "opts": ".686\n.model flat\noption dotname\noption nokeyword:<add mov>\noption expr16\noption oldstructs\noption m510\n.code\nend\n",
    "renkw": "option renamekeyword:<mov>=movx\ns segment\n movx ax,bx\ns ends\nend\n", "scoped": "option noscoped\noption noljmp\noption nosignextend\noption noreadonly\ns segment\nx: nop\ns ends\nend\n",
    "lits": H32 + "option literals:on\n.data\n dd 0\n.code\nend\n", "litsx64": H64 + "option literals:on\n.data\n dq 0\n.code\nend\n", "bnd": H32 + "option bnd:on\n.code\n ret\nend\n",
    "archavx": H64 + "option arch:avx\n.code\nend\n", "arch": ".686p\n.xmm\noption arch:avx\n.model flat\n.code\nend\n", "vtable": H64 + "option vtable:off\n.code\nend\n", "fflags": H64 + "option frameflags:on\n.code\nend\n",
    "hlcall": H64 + "option hlcall:off\n.code\nend\n", "evex": ".686p\n.xmm\n.model flat\noption evex:1\n.code\n vaddps zmm1,zmm2,zmm3\nend\n", "redz": H64 + "option redzone:yes\n.code\nend\n",
    "frame": "option win64:15\noption frame:auto\noption stackbase:rsp\n.code\np1 proc frame uses rbx a:qword\n local b:qword\n mov rax,b\n ret\np1 endp\nend\n",
    "switchst": H32 + "option switch:asmstyle\noption switchsize:8000h\n.code\n.switch eax\n.case 1\n nop\n.case 2\n nop\n.endswitch\nend\n",
    "cpu": ".486p\n.387\ns segment use32\n mov cr0,eax\ns ends\nend\n", "mmx": ".686p\n.mmx\n.k3d\n.xmm\ns segment use32\n addps xmm1,xmm2\n pfadd mm1,mm2\ns ends\nend\n",
    "x64": ".x64p\ns segment use64\n mov rax,r9\ns ends\nend\n", "x64n": ".x64\n.model flat,fastcall\n.code\n mov rax,r9\nend\n", "nox87": ".686\n.no87\ns segment use32\ns ends\nend\n",
    "macros": "mm macro a,b\n local l1\nl1: db a\n ifnb <b>\n exitm\n endif\n endm\ns segment\n mm 1\n mm 2\n mm 3,4\ns ends\nend\n", "purge": "pm macro\n endm\n purge pm\nend\n",
    "texts": "tt textequ <1,2,3>\nv = 5\nw equ 7\nt2 catstr <a>,<b>\nend\n", "assume": ".686\n.model flat\n.code\n assume ebx:ptr dword, fs:nothing, es:error\n mov [ebx],eax\nend\n",
    "assume16": "d segment\nv dw 1\nd ends\ns segment\n assume ds:d,cs:s,es:d\n mov ax,v\ns ends\nend\n", "ctx": "pushcontext all\npushcontext radix\n.radix 3\npopcontext radix\npopcontext all\nend\n",
    "align": "s segment para\n db 1\n align 16\ns ends\nend\n", "structs": "s1 struct 8\n a db ?\n b dd ?\ns1 ends\nu1 union\n x dd ?\n y dw ?\nu1 ends\nr1 record f1:3,f2:5\ns segment\nv s1 <>\nq r1 <1,2>\ns ends\nend\n",
    "typedefs": "pp typedef ptr dword\nfp typedef proto stdcall :dword\nend\n", "protos": H32 + "foo proto :dword,:vararg\nbar proto c :dword\n.code\n invoke foo,1\n invoke bar,2\nend\n",
    "procs": H32 + ".code\np1 proc uses ebx a:dword,b:dword\n local c:dword,d[5]:byte\n mov eax,a\n mov c,eax\n@@: jmp @B\n ret\np1 endp\nend p1\n",
    "hll": H32 + ".code\n.if eax==1 && ebx>2\n nop\n.elseif ecx\n nop\n.endif\n.while eax\n.break .if ebx\n.endw\n.repeat\n.untilcxz\nend\n",
    "anon": "s segment\n@@: nop\n jmp @B\n jmp @F\n@@:\ns ends\nend\n", "list": ".nolist\n.listall\n.listif\n.tfcond\n page 20,80\n title xx\n subtitle yy\n.nocref\ns segment\n db 1\ns ends\nend\n",
    "echo": "echo hello\n%echo @Version\nend\n", "alias": "alias <a1>=<b1>\nincludelib foo.lib\n.dosseg\nend\n", "comm": "comm cc:dword:3\nextern ee:byte,ef:near\npublic zz\ns segment\nzz db 0\n dw offset cc\ns ends\nend\n",
    "group": "a segment\na ends\nb segment\nb ends\ng group a,b\nend\n", "org": "s segment\n org 100h\n db 1\ns ends\nend\n", "fwd": "s segment\n jmp x\n db 200 dup (0)\nx:\n mov ax,y\ny equ 5\ns ends\nend x\n",
    "big": "s segment\n" + " db 1000 dup (1)\n" * 30 + "s ends\nend\n", "manysyms": "s segment\n" + "".join("l%d: nop\n" % i for i in range(500)) + "s ends\nend\n",
    "include": "include i.inc\nend\n", "nolang": ".model small\n.code\nx proc near\n ret\nx endp\nend\n", "langc": ".model small,c\n.stack 100h\n.data\nv dw 1\n.code\n.startup\nx proc near a:word\n ret\nx endp\n.exit 0\nend\n",
    "pascal": ".model large,pascal\n.code\nx proc a:word\n ret\nx endp\nend\n", "tiny": ".model tiny\n.code\n org 100h\nst_: ret\nend st_\n", "fast32": ".686\n.model flat,fastcall\n.code\nx proc a:dword,b:dword,d:dword\n mov eax,a\n ret\nx endp\nend\n",
    "sysv": "option casemap:none\n.code\nx proc a:dword,b:qword\n mov eax,a\n ret\nx endp\n invoke x,1,2\nend\n", "vcall": ".code\nx proc vectorcall a:real4,b:real8\n movss xmm3,a\n ret\nx endp\nend\n",
    "warn": ".686\n.model flat\n.code\n mov eax,dword ptr [1]\n jmp short @F\n@@:\n push 1,2\nend\n", "float": "s segment\n real4 1.5\n real8 -2.25\n real10 1e100\ns ends\nend\n",
    "objs": ".686\n.model flat\n.code\nsafe proc c\n ret\nsafe endp\n.safeseh safe\nend\n", "for": H32 + ".code\n.for (ecx=0: ecx<5: ecx++)\n nop\n.endfor\nend\n", "rept": "s segment\nirpc c,<abc>\n db '&c'\n endm\nfor x,<1,2>\n db x\n endm\nrept 2\n db 9\n endm\ns ends\nend\n",
    "defs": "ifdef D1\n db D1\nendif\n% echo @FileName @FileCur\ns segment\n db '@Time'\ns ends\nend\n", "seh": H64 + ".code\nx proc frame:handler\n push rbx\n.pushreg rbx\n sub rsp,20h\n.allocstack 20h\n.endprolog\n add rsp,20h\n pop rbx\n ret\nx endp\nhandler proc\n ret\nhandler endp\nend\n",
    "zmm": "option evex:1\n.code\n vmovups zmm20,[rax]\n vaddps zmm1{k1}{z},zmm2,zmm3,{rn-sae}\nend\n", "vararg": H64 + "pf proto :ptr,:vararg\n.code\n invoke pf,addr m1,1,2,3,4,5\n.data\nm1 db 'x',0\nend\n",
    "prolog": ".686\n.model flat,c\npm macro n,f,a,b,c,d\n exitm <0>\nendm\noption prologue:pm\noption epilogue:none\noption proc:export\noption procalign:16\n.code\nx proc\n ret\nx endp\nend\n",
    "segopt": "option segment:use32\noption offset:segment\n.486\ns segment\n nop\ns ends\nend\n", "lang": "option language:c\noption fieldalign:4\ns segment\nx proc\nx endp\ns ends\nend\n", "dllimp": H32 + "option dllimport:<k>\nff proto :dword\noption dllimport:none\n.code\n invoke ff,1\nend\n",
    "codeview": "option codeview:2\n.686\n.model flat\n.code\nend\n", "zeroloc": "option zerolocals:1\n.686\n.model flat,c\n.code\nx proc\n local q:dword\n mov q,1\n ret\nx endp\nend\n", "setif2": "option setif2:1\nif2\n db 1\nendif\nend\n", "flatoff": ".386\n.model flat\noption offset:flat\n.code\n mov eax,offset q\nq:\nend\n",
    "elfabi": "option elf:9\nend\n", "mzopt": "option mz:20h\nend\n", "noemul": "option noemulator\n.287\ns segment\n fld1\ns ends\nend\n", "emul": "option emulator\n.8087\ns segment\n fld1\n fwait\ns ends\nend\n",
    "avxproc": "option win64:15\noption arch:avx\n.code\nx proc uses xmm6 xmm7 a:qword\n ret\nx endp\nend\n", "rec": "R1 record a1:4=3,b1:4\ns segment\n db mask a1\n db width b1\nvr R1 <>\ns ends\nend\n", "oo": H64 + "option literals:on\n.code\ninvoke x, \"abc\"\nx proc a:ptr\n ret\nx endp\nend\n",
    "substr": "q substr <abcdef>,2,3\nr sizestr <abc>\nz instr <abc>,<c>\ns segment\n db r,z\n% db '&q'\ns ends\nend\n", "str64": ".code\n lea rax,x\n mov x,rax\n.data\nx dq ?\nend\n",
    # modules that show state inherited from others
    "s32": ".686p\n.xmm\n.model flat\n.data\nv dd 10\nr4 real4 1.0\ntv db 5 dup (?)\n.code\nFoo proc\n mov eax,v\n mov ecx,10\nlab: jz lab\n add eax,-1\n ret\nFoo endp\n%echo @Cpu @Model @CodeSize @DataSize @Interface @WordSize @Line @CurSeg @code\n public Foo\nend Foo\n",
    "s32p": H32 + "foo proto :dword,:dword\n.code\nx proc uses ebx esi a:dword,b:dword\n local c:dword\n local d:qword\n.if a==1\n invoke foo,a,addr c\n.elseif b>2\n mov c,1\n.else\n.while ecx\n.break .if edx\n dec ecx\n.endw\n.endif\n.switch a\n.case 1\n nop\n.case 2\n inc eax\n.case 3\n dec eax\n.default\n ret\n.endswitch\n ret\nx endp\nend\n",
    "s64": "foo proto :qword,:qword\n.data\nx1 dq 5\n.code\nx proc frame uses rbx rsi a:qword,b:qword\n local c:dword\n local d:qword\n.if a==1\n invoke foo,a,addr c\n.endif\n mov rax,x1\n movaps xmm1,xmm2\n ret\nx endp\ny proc a:qword,b:real8\n local c:xmmword\n invoke x,1,2\n ret\ny endp\nend\n",
    "s64b": ".code\nx proc a:qword,b:dword,d:byte,e:word,f:qword\n local z:dword\n mov rax,f\n mov al,d\n.if rax>z\n inc z\n.endif\n.switch eax\n.case 5\n nop\n.case 7\n inc eax\n.endswitch\n ret\nx endp\nend\n",
    "s16": ".model small\n.stack\n.data\nv dw 10h,@WordSize\n.code\nst_: mov ax,@data\n mov ds,ax\n mov ax,v\n jmp short q\nq: int 21h\nend st_\n", "sdef": "s segment\n db 10,0ah,12o\n dw 'ab'\n mov ax,[bx+2]\n push 5\nA equ 1\n db A,a\ns ends\nend\n",
    "smac": "mm macro a\n local l\nl: db a\n jmp l\n endm\ns segment\n mm 1\n mm 2\n irp x,<1,2>\n local z\nz: db x\n endm\ns ends\nend\n", "slist": ".686\n.model flat\n.listall\n.code\n nop\nif 0\n db 1\nendif\n mov eax,1\nend\n",
    "serr": ".686\n.model flat\n.code\n mov eax,zz\n foo\n mov al,bx\nend\n", "swarn": ".686\n.model flat\n.code\n mov ecx,dword ptr [1]\n option foo\nend\n", "sver": "% echo @Version\nifdef mm\n db 1\nendif\nifdef __UASM__\n%echo __UASM__\nendif\ns segment\ns ends\nend\n",
    "slit": H64 + "pf proto :ptr\n.code\n invoke pf,\"text\"\nend\n", "sdot": ".code\n.lab: nop\n mov rax,r10\n vaddps xmm1,xmm2,xmm17\nend\n", "scase": "s segment\nFoo db 1\n db foo\n public Foo\ns ends\nend\n",
}
OPTS = [["-bin"], ["-elf"], ["-coff"], ["-omf"], ["-win64"], ["-elf64"], ["-mz"], ["-pe"], ["-macho64"], ["-win64", "-Zi"], ["-coff", "-Zi", "-Zd"], ["-omf", "-Zi"], ["-omf", "-Fl", "-Sa"], ["-bin", "-DD1=3", "-Cp", "-W4", "-WX"], ["-coff", "-Cu", "-Gz", "-Zm", "-Zp4"],
        ["-zcw", "-coff", "-Gc"], ["-elf64", "-archAVX", "-Fl"], ["-bin", "-win64"], ["-e=2", "-coff", "-Sf", "-Fl"], ["-mz", "-nologo", "-ms"]]
FILES = {"i.inc": ".radix 8\niv equ 11\n"}
DATE = re.compile(rb"\d\d/\d\d/\d\d(\d\d)?\s+\d\d:\d\d:\d\d|\d+ ms")


def norm(name, b):
    if b is None:
        return b
    e = name.rsplit(".", 1)[-1].lower()
    if e in ("o", "obj"):
        if b[:2] in (b"\x4c\x01", b"\x64\x86"):
            b = b[:4] + bytes(4) + b[8:]
        elif b[:1] == b"\x80":
            # COMENT class 0E9h: the date of a dependency file
            i, out = 0, []
            while i + 3 <= len(b):
                n = 3 + int.from_bytes(b[i + 1:i + 3], "little")
                x = b[i:i + n]
                if x[0] == 0x88 and len(x) > 9 and x[4] == 0xe9:
                    x = x[:5] + b"TIME" + x[9:-1]
                out.append(x)
                i += n
            b = b"".join(out) + b[i:]
    elif e == "exe" and len(b) > 0x40:
        o = int.from_bytes(b[0x3c:0x40], "little")
        if b[o:o + 4] == b"PE\0\0":
            b = b[:o + 8] + bytes(4) + b[o + 12:]
    return DATE.sub(b"", b)


def outs(r, stem):
    return {k: norm(k, v) for k, v in r.files.items() if k.split(".")[0] == stem and not k.endswith(".asm")}


SENT = [k for k in DIRTY if k[0] == "s" and k in ("s32", "s32p", "s64", "s64b", "s16", "sdef", "smac", "slist", "serr", "swarn", "sver", "slit", "sdot", "scase")]
KEYS = list(DIRTY)
CORPUS = {}
for p in sorted(glob.glob(os.path.join(REPO, "regress/src/**/*.[aA][sS][mM]"), recursive=True)):
    t = open(p, encoding="latin1", newline="").read()
    if len(t) < 30000 and "EQUATE23" not in p:
        CORPUS[os.path.relpath(p, REPO)] = t

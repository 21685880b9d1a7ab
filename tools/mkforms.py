#!/usr/bin/env python3
"""mkforms.py: regenerate data/vexforms.txt, the operand forms GNU as knows for the mnemonics of data/vex.txt
(run by hand; independent of the assembler under test)."""
import sys, os, multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
from isa import *
V = ["xmm%d", "ymm%d", "zmm%d"]
R = ["k%d", "r32", "r64"]
MS = ["byte", "word", "dword", "qword", "xmmword", "ymmword", "zmmword"]
M = [s + " ptr [rbx+64]" for s in MS]
VS = ["%s ptr [rbx+%smm4*2]" % (s, v) for s in ("dword", "qword") for v in "xyz"]
G = {"r32": ["eax", "ecx", "edx", "ebx"], "r64": ["rax", "rcx", "rdx", "rbx"]}


def put(o, k):
    return o % (k + 1) if "%d" in o else G[o][k] if o in G else o


def cands(n):
    A = V + R + M
    yield ()
    for a in A:
        yield (a,)
        for b in A + VS + ["3"]:
            if not ("[" in a and "[" in b):
                yield a, b
    for a in A:
        for b in A + VS:
            if "[" in a and "[" in b:
                continue
            for c in A + ["3"]:
                if ("[" in a or "[" in b) and "[" in c:
                    continue
                yield a, b, c
    if "gather" in n or "scatter" in n:
        for a in V:
            for b in VS:
                yield a + "{k1}", b
                yield b + "{k1}", a
        for b in VS:
            yield b + "{k1}",
    for a in V + ["k%d"]:
        for b in V:
            for c in V + M:
                for d in V + M + ["3"]:
                    if "[" in c and "[" in d:
                        continue
                    yield a, b, c, d


def work(n):
    c = list(cands(n))
    st = [(n + " " + ", ".join(put(o, k) for k, o in enumerate(x))).strip() for x in c]
    ok, bad = {}, {}
    for i in range(0, len(st), 4000):
        o, b = gas(64, st[i:i + 4000])
        for k in o:
            ok[i + k] = o[k]
    return [st[i] for i in ok]


if __name__ == "__main__":
    names = open(os.path.join(VERIF, "data", "vex.txt")).read().split()
    with mp.Pool(8) as p:
        with open(os.path.join(VERIF, "data", "vexforms.txt"), "w") as f:
            for r in p.imap(work, names):
                for s in r:
                    f.write(s + "\n")

"""ctypes front end of xemu.c, the interpreter generated code is run on."""
import ctypes, hashlib, os, subprocess
import vlib

class CPU(ctypes.Structure):
    _fields_ = [("r", ctypes.c_uint64 * 16), ("rip", ctypes.c_uint64), ("fl", ctypes.c_uint64), ("sbase", ctypes.c_uint64 * 6),
                ("x", (ctypes.c_uint8 * 64) * 32), ("mode", ctypes.c_uint64), ("m1", ctypes.c_void_p), ("b1", ctypes.c_uint64),
                ("n1", ctypes.c_uint64), ("m2", ctypes.c_void_p), ("b2", ctypes.c_uint64), ("n2", ctypes.c_uint64),
                ("io", ctypes.c_uint64), ("nio", ctypes.c_uint64), ("script", ctypes.c_void_p), ("nscript", ctypes.c_uint64),
                ("pos", ctypes.c_uint64), ("trace", ctypes.c_void_p), ("ntrace", ctypes.c_uint64), ("maxtrace", ctypes.c_uint64),
                ("steps", ctypes.c_uint64), ("stop", ctypes.c_uint64), ("fault", ctypes.c_uint64), ("status", ctypes.c_uint64),
                ("undef", ctypes.c_uint64), ("minsp", ctypes.c_uint64), ("seg", ctypes.c_uint16 * 6), ("wlo", ctypes.c_uint64),
                ("whi", ctypes.c_uint64), ("wcount", ctypes.c_uint64), ("st", ctypes.c_double * 8), ("fsp", ctypes.c_uint64)]

HALT, FAULT, UNKNOWN, STEPS, SCRIPT, DIVERR, TRACEFULL, STOPPED, ALIGNERR = range(9)
NAME = ["halt", "fault", "unknown instruction", "too many steps", "script", "divide error", "trace full", "stopped", "misaligned"]
_lib = None


def lib():
    global _lib
    if _lib is None:
        src = os.path.join(vlib.HARN, "xemu.c")
        so = os.path.join(vlib._bdir(), "xemu-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:20] + ".so")
        if not os.path.exists(so):
            tmp = so + ".%d" % os.getpid()
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", tmp, src, "-lm"], check=True)
            os.replace(tmp, so)
        _lib = ctypes.CDLL(so)
        assert _lib.xsize() == ctypes.sizeof(CPU), "struct cpu out of step"
    return _lib


class Emu:
    """One machine: image at base, stack, I/O window."""
    def __init__(self, mode, image, base=0, extra=0, stack=0x4000, sbase=0x700000, io=0x500000, nio=64, maxtrace=256, script=64):
        self.l = lib()
        self.c = c = CPU()
        c.mode = mode
        if mode == 16:
            sbase, io = 0x20000, 0x8000           # stack segment apart; the I/O window is in the data segment
        self.img = ctypes.create_string_buffer(bytes(image) + b"\xf4" * extra, len(image) + extra)
        self.orig = bytes(self.img.raw)
        self.stk = ctypes.create_string_buffer(stack)
        self.ns = stack
        c.m1, c.b1, c.n1 = ctypes.addressof(self.img), base, len(self.orig)
        c.m2, c.b2, c.n2 = ctypes.addressof(self.stk), sbase, stack
        c.io, c.nio = io, nio
        self.tr = (ctypes.c_uint64 * maxtrace)()
        c.trace, c.maxtrace = ctypes.addressof(self.tr), maxtrace
        self.sc = (ctypes.c_uint64 * script)()
        c.script = ctypes.addressof(self.sc)
        self.io = io
        if mode == 16:
            c.sbase[2] = sbase
            self.top = stack - 0x800
        else:
            self.top = sbase + stack - 0x800
        self.sb = sbase

    def reset_image(self):
        ctypes.memmove(self.img, self.orig, len(self.orig))

    def setup(self, rip, regs=None, fl=0, sp=None):
        c = self.c
        for k in range(16):
            c.r[k] = 0x5a5a0000 + 0x111 * k
        c.r[4] = self.top if sp is None else sp
        if regs:
            for k, v in regs.items():
                c.r[k] = v & 0xffffffffffffffff
        c.rip, c.fl = rip, fl

    def run(self, rip, script=(), regs=None, fl=0, maxsteps=20000, maxtrace=None):
        self.setup(rip, regs, fl)
        c = self.c
        for k, v in enumerate(script):
            self.sc[k] = v
        c.nscript = len(script)
        if maxtrace:
            c.maxtrace = maxtrace
        return self.l.xrun(ctypes.byref(c), ctypes.c_uint64(maxsteps))

    def trace(self):
        return list(self.tr[:self.c.ntrace])

    def grid(self, rip, ridx, cofs, vecs, fl=None, maxsteps=2000):
        """first event of the run for every vector (registers, 8-byte cells)"""
        n = len(vecs)
        w = len(ridx) + len(cofs)
        flat = (ctypes.c_uint64 * (n * w))(*[x & 0xffffffffffffffff for v in vecs for x in v])
        out = (ctypes.c_uint64 * n)()
        ra = (ctypes.c_int * max(1, len(ridx)))(*ridx)
        ca = (ctypes.c_uint64 * max(1, len(cofs)))(*cofs)
        fa = (ctypes.c_uint64 * n)(*fl) if fl is not None else None
        self.l.xgrid(ctypes.byref(self.c), ctypes.c_uint64(rip), ctypes.c_uint64(self.top), len(ridx), ra, len(cofs), ca, n, flat, fa, out,
                     ctypes.c_uint64(maxsteps))
        return list(out)

"""RtlVirtualUnwind for x64: from the function table, the unwind information and the code, the caller's context (C14)."""
import struct


class Bad(Exception):
    pass


def entries(pdata):
    return [struct.unpack_from("<3I", pdata, k) for k in range(0, len(pdata) - 11, 12)]


class Info:
    def __init__(self, rd, va):
        h = rd(va, 4)
        if h is None:
            raise Bad("unwind information at %x isn't in the image" % va)
        self.ver, self.flags = h[0] & 7, h[0] >> 3
        if self.ver != 1:
            raise Bad("unwind information version %d" % self.ver)
        self.prolog, self.n = h[1], h[2]
        self.fp, self.fpofs = h[3] & 15, (h[3] >> 4) * 16
        c = rd(va + 4, 2 * self.n)
        if c is None:
            raise Bad("unwind codes are outside the image")
        w = lambda k: struct.unpack_from("<H", c, 2 * k)[0]
        self.codes, k = [], 0
        tail = va + 4 + 2 * (self.n + (self.n & 1))
        self.handler = struct.unpack("<I", rd(tail, 4))[0] if self.flags & 3 else None
        last = 256
        while k < self.n:
            o, b = c[2 * k], c[2 * k + 1]
            op, i = b & 15, b >> 4
            need = {0: 0, 1: 1 if i == 0 else 2, 2: 0, 3: 0, 4: 1, 5: 2, 8: 1, 9: 2, 10: 0}.get(op)
            if need is None or k + need >= self.n:
                raise Bad("unwind code %d (operation %d) is invalid" % (k, op))
            v = 0
            if op == 1:
                if i > 1:
                    raise Bad("ALLOC_LARGE with info %d" % i)
                v = w(k + 1) * 8 if i == 0 else w(k + 1) | w(k + 2) << 16
            elif op == 2:
                v = i * 8 + 8
            elif op in (4, 8):
                v = w(k + 1) * (8 if op == 4 else 16)
            elif op in (5, 9):
                v = w(k + 1) | w(k + 2) << 16
            if o > last:
                raise Bad("unwind codes aren't in descending order of offset")
            if o > self.prolog:
                raise Bad("unwind code at offset %d, prologue has %d bytes" % (o, self.prolog))
            last = o
            self.codes.append((o, op, i, v))
            k += 1 + need


def epilogue(rd, rip, regs, fp, begin, end):
    """the context after the epilogue when rip is in one, else None"""
    r = list(regs)
    p = rip
    b = rd(p, 16) or b""
    if len(b) < 16:
        b = b + bytes(16 - len(b))
    if b[:3] == b"\x48\x83\xc4":
        r[4] += struct.unpack_from("<b", b, 3)[0]
        p += 4
    elif b[:3] == b"\x48\x81\xc4":
        r[4] += struct.unpack_from("<i", b, 3)[0]
        p += 7
    elif b[0] & 0xfe == 0x48 and b[1] == 0x8d and b[2] >> 3 & 7 == 4 and (fp and (b[2] & 7) + 8 * (b[0] & 1) == fp) and b[2] >> 6 in (1, 2) and b[2] & 7 != 4:
        m = b[2] >> 6
        r[4] = r[fp] + struct.unpack_from("<b" if m == 1 else "<i", b, 3)[0]
        p += 4 if m == 1 else 7
    while 1:
        b = rd(p, 2) or b"\0\0"
        if 0x58 <= b[0] <= 0x5f and b[0] != 0x5c:
            r[b[0] & 7] = int.from_bytes(rd(r[4], 8) or bytes(8), "little")
            r[4] += 8
            p += 1
        elif b[0] == 0x41 and 0x58 <= b[1] <= 0x5f:
            r[8 + (b[1] & 7)] = int.from_bytes(rd(r[4], 8) or bytes(8), "little")
            r[4] += 8
            p += 2
        else:
            break
    b = rd(p, 3) or b"\0\0\0"
    if b[0] in (0xc3, 0xc2) or b[:2] == b"\xf3\xc3":
        q = rd(r[4], 8)
        if q is None:
            return None
        r[4] += 8
        return int.from_bytes(q, "little"), r
    return None


def virtual(rd, image, ents, rip, regs, xmm, cache):
    """(rip, regs, xmm) of the caller.  rd(va, n) reads memory; regs: 16 integers; xmm: 16 bytes objects"""
    for b, e, u in ents:
        if b <= rip - image < e:
            break
    else:
        raise Bad("no function table entry covers offset %x" % (rip - image))
    inf = cache.get(u)
    if inf is None:
        inf = cache[u] = Info(rd, image + u)
    off = rip - image - b
    if off >= inf.prolog:
        ep = epilogue(rd, rip, regs, inf.fp, b, e)
        if ep:
            return ep[0], ep[1], list(xmm)
    r, x = list(regs), list(xmm)

    def q(a):
        v = rd(a, 8)
        if v is None:
            raise Bad("unwinding reads memory at %x, rsp is %x" % (a, regs[4]))
        return int.from_bytes(v, "little")
    frame = r[4]
    if inf.fp:
        if off >= inf.prolog:
            frame = r[inf.fp] - inf.fpofs
        else:
            for o, op, i, v in inf.codes:
                if op == 3 and off >= o:
                    frame = r[inf.fp] - inf.fpofs
    mach = False
    for o, op, i, v in inf.codes:
        if off < inf.prolog and o > off:
            continue
        if op == 0:
            r[i] = q(r[4])
            r[4] += 8
        elif op in (1, 2):
            r[4] += v
        elif op == 3:
            r[4] = r[inf.fp] - inf.fpofs
        elif op in (4, 5):
            r[i] = q(frame + v)
        elif op in (8, 9):
            x[i] = rd(frame + v, 16)
            if x[i] is None:
                raise Bad("unwinding reads an XMM register at rsp+%x" % (frame + v - regs[4]))
        elif op == 10:
            mach = True
            a = r[4] + 8 * i
            ip, r[4] = q(a), q(a + 24)
    if not mach:
        ip = q(r[4])
        r[4] += 8
    return ip, r, x

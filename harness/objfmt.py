"""Readers for the object formats, written from the format specifications (ELF gABI, PE/COFF, Intel/TIS OMF, Mach-O)."""
import struct


class Bad(Exception):
    """the file does not follow its format"""


class Sec:
    def __init__(self, name, **kw):
        self.name = name
        self.data = b""
        self.size = 0
        self.align = 1
        self.nobits = False
        self.flags = 0
        self.relocs = []
        self.written = None       # OMF: {offset: byte}
        self.__dict__.update(kw)

    def __repr__(self):
        return "Sec(%s,%d)" % (self.name, self.size)


class Sym:
    def __init__(self, name, sec, value, **kw):
        self.name, self.sec, self.value = name, sec, value      # sec: Sec, None (undefined), "abs", "common", "file"
        self.glob = False
        self.weak = False
        self.size = 0
        self.kind = None
        self.__dict__.update(kw)

    def __repr__(self):
        return "Sym(%s,%s,%x)" % (self.name, self.sec, self.value)


class Rel:
    def __init__(self, off, typ, sym, addend=0, **kw):
        self.off, self.type, self.sym, self.addend = off, typ, sym, addend
        self.__dict__.update(kw)

    def __repr__(self):
        return "Rel(%x,%s,%s,%s)" % (self.off, self.type, self.sym, self.addend)


class Obj:
    def __init__(self):
        self.secs, self.syms = [], []

    def sec(self, name):
        for s in self.secs:
            if s.name == name:
                return s

    def sym(self, name):
        for s in self.syms:
            if s.name == name:
                return s


def need(c, what):
    if not c:
        raise Bad(what)


def cstr(b, o):
    need(0 <= o < len(b), "string offset %d outside its table" % o)
    e = b.find(b"\0", o)
    need(e >= 0, "unterminated string")
    return b[o:e].decode("latin1")


# -------------------------------------------------------------------- ELF --
def elf(b):
    o = Obj()
    need(b[:4] == b"\x7fELF" and len(b) >= 52, "no ELF header")
    o.bits = {1: 32, 2: 64}[b[4]]
    need(b[5] == 1, "byte order")
    if o.bits == 64:
        typ, mach, ver, entry, phoff, shoff, fl, ehs, phs, phn, shs, shn, shx = struct.unpack_from("<HHIQQQIHHHHHH", b, 16)
        need(ehs == 64 and shs == 64, "header sizes")
    else:
        typ, mach, ver, entry, phoff, shoff, fl, ehs, phs, phn, shs, shn, shx = struct.unpack_from("<HHIIIIIHHHHHH", b, 16)
        need(ehs == 52 and shs == 40, "header sizes")
    o.machine = mach
    o.etype = typ
    need(typ == 1 and phn == 0, "not a relocatable file")
    need(shoff + shs * shn <= len(b), "section table outside the file")
    raw = []
    for i in range(shn):
        if o.bits == 64:
            raw.append(struct.unpack_from("<IIQQQQIIQQ", b, shoff + i * shs))
        else:
            raw.append(struct.unpack_from("<IIIIIIIIII", b, shoff + i * shs))
    need(0 < shx < shn, "section name table index")
    names = b[raw[shx][4]:raw[shx][4] + raw[shx][5]]
    spans = []
    for i, (nm, ty, fl, addr, off, size, link, info, al, ent) in enumerate(raw):
        s = Sec(cstr(names, nm) if i else "", idx=i, type=ty, flags=fl, addr=addr, size=size, link=link, info=info, align=al or 1, ent=ent, off=off)
        need(s.align & (s.align - 1) == 0, "alignment of %s not a power of two" % s.name)
        if ty == 8:
            s.nobits = True
        elif i:
            need(off + size <= len(b), "section %s outside the file" % s.name)
            s.data = b[off:off + size]
            if size:
                spans.append((off, off + size, s.name))
        o.secs.append(s)
    spans += [(0, ehs, "header"), (shoff, shoff + shs * shn, "section table")]
    spans.sort()
    for (a0, a1, n0), (b0, b1, n1) in zip(spans, spans[1:]):
        need(a1 <= b0, "%s and %s overlap" % (n0, n1))
    o.spans = spans
    st = [s for s in o.secs if s.type == 2]
    need(len(st) <= 1, "several symbol tables")
    tab = []
    for s in st:
        strs = o.secs[s.link].data
        n = s.size // s.ent
        need(s.ent == (24 if o.bits == 64 else 16), "symbol entry size")
        o.nlocal = s.info
        for i in range(n):
            if o.bits == 64:
                nm, inf, oth, shi, val, sz = struct.unpack_from("<IBBHQQ", s.data, i * 24)
            else:
                nm, val, sz, inf, oth, shi = struct.unpack_from("<IIIBBH", s.data, i * 16)
            sec = None if shi == 0 else "abs" if shi == 0xfff1 else "common" if shi == 0xfff2 else None
            if 0 < shi < 0xff00:
                need(shi < shn, "symbol section index")
                sec = o.secs[shi]
            y = Sym(cstr(strs, nm) if nm else "", sec, val, size=sz, bind=inf >> 4, type=inf & 15, glob=(inf >> 4) in (1, 2), weak=(inf >> 4) == 2, other=oth, idx=i)
            need((y.bind == 0) == (i < s.info), "local/global order of the symbol table")
            tab.append(y)
    o.alltab = tab
    o.syms = tab[1:]
    for s in o.secs:
        if s.type in (4, 9):
            need(s.info and s.info < shn, "relocation section target")
            t = o.secs[s.info]
            e = {(4, 64): 24, (9, 32): 8, (4, 32): 12, (9, 64): 16}[(s.type, o.bits)]
            need(s.ent == e and s.size % e == 0, "relocation entry size")
            for i in range(s.size // e):
                if o.bits == 64:
                    off, inf = struct.unpack_from("<QQ", s.data, i * e)
                    add = struct.unpack_from("<q", s.data, i * e + 16)[0] if s.type == 4 else None
                    sy, ty = inf >> 32, inf & 0xffffffff
                else:
                    off, inf = struct.unpack_from("<II", s.data, i * e)
                    add = struct.unpack_from("<i", s.data, i * e + 8)[0] if s.type == 4 else None
                    sy, ty = inf >> 8, inf & 255
                need(sy < len(tab), "relocation symbol index")
                need(off < t.size, "relocation outside its section")
                t.relocs.append(Rel(off, ty, tab[sy], add))
    return o


# ------------------------------------------------------------------- COFF --
def coff(b):
    o = Obj()
    need(len(b) >= 20, "no COFF header")
    mach, n, ts, symoff, nsym, opt, ch = struct.unpack_from("<HHIIIHH", b)
    need(mach in (0x14c, 0x8664), "machine %x" % mach)
    o.machine = mach
    o.bits = 64 if mach == 0x8664 else 32
    need(opt == 0, "optional header in an object")
    strs = b[symoff + 18 * nsym:]
    need(symoff + 18 * nsym <= len(b), "symbol table outside the file")
    if nsym:
        need(len(strs) >= 4, "no string table")
        need(struct.unpack_from("<I", strs)[0] == len(strs), "string table size %d, is %d" % (struct.unpack_from("<I", strs)[0], len(strs)))
    spans = [(0, 20 + 40 * n, "headers"), (symoff, len(b), "symbols")] if nsym else [(0, 20 + 40 * n, "headers")]
    for i in range(n):
        nm, vs, va, rs, rp, relp, lnp, nrel, nln, fl = struct.unpack_from("<8sIIIIIIHHI", b, 20 + 40 * i)
        nm = nm.rstrip(b"\0").decode("latin1")
        if nm.startswith("/"):
            nm = cstr(strs, int(nm[1:]))
        s = Sec(nm, idx=i + 1, size=rs, flags=fl, align=1 << ((fl >> 20 & 15) - 1) if fl >> 20 & 15 else 1, vsize=vs, va=va, off=rp)
        s.nobits = bool(fl & 0x80)
        if not s.nobits and rs:
            need(rp + rs <= len(b), "section %s outside the file" % nm)
            s.data = b[rp:rp + rs]
            spans.append((rp, rp + rs, nm))
        s._rel = (relp, nrel)
        s.lines = []
        if nln:
            need(lnp + 6 * nln <= len(b), "line numbers outside the file")
            s.lines = [struct.unpack_from("<IH", b, lnp + 6 * k) for k in range(nln)]
            spans.append((lnp, lnp + 6 * nln, nm + " lines"))
        o.secs.append(s)
    tab = {}
    i = 0
    while i < nsym:
        nm, val, sn, ty, cl, aux = struct.unpack_from("<8sIhHBB", b, symoff + 18 * i)
        if nm[:4] == b"\0\0\0\0":
            nm = cstr(strs, struct.unpack_from("<I", nm, 4)[0])
        else:
            nm = nm.rstrip(b"\0").decode("latin1")
        need(sn <= n, "symbol section number")
        sec = o.secs[sn - 1] if sn > 0 else {0: None, -1: "abs", -2: "debug"}[sn]
        y = Sym(nm, sec, val, type=ty, cls=cl, glob=cl in (2, 105), weak=cl == 105, idx=i,
                aux=[b[symoff + 18 * (i + 1 + k):symoff + 18 * (i + 2 + k)] for k in range(aux)])
        tab[i] = y
        o.syms.append(y)
        i += 1 + aux
    need(i == nsym, "auxiliary records run over the symbol table")
    o.symidx = tab
    for s in o.secs:
        relp, nrel = s._rel
        k0 = 0
        if s.flags & 0x01000000 and nrel == 0xffff:
            nrel = struct.unpack_from("<I", b, relp)[0]
            k0 = 1
        if nrel:
            need(relp + 10 * nrel <= len(b), "relocations outside the file")
            spans.append((relp, relp + 10 * nrel, s.name + " relocations"))
        for k in range(k0, nrel):
            va, si, ty = struct.unpack_from("<IIH", b, relp + 10 * k)
            need(si in tab, "relocation symbol index %d" % si)
            need(va < s.size, "relocation outside its section")
            s.relocs.append(Rel(va, ty, tab[si], None))
    spans.sort()
    for (a0, a1, n0), (b0, b1, n1) in zip(spans, spans[1:]):
        need(a1 <= b0, "%s and %s overlap" % (n0, n1))
    o.spans = spans
    return o


# -------------------------------------------------------------------- OMF --
def omf(b):
    o = Obj()
    p = 0
    lnames = [""]
    o.segs, o.groups, o.ext, o.pubs, o.lines, o.coments = [None], [None], [None], [], [], []
    o.entry = None
    thr = {}
    last = None
    done = False

    class R:
        def __init__(s, d):
            s.d, s.i = d, 0

        def u8(s):
            need(s.i < len(s.d), "record too short")
            s.i += 1
            return s.d[s.i - 1]

        def u16(s):
            return s.u8() | s.u8() << 8

        def u32(s):
            return s.u16() | s.u16() << 16

        def ofs(s, big):
            return s.u32() if big else s.u16()

        def idx(s):
            v = s.u8()
            return (v & 0x7f) << 8 | s.u8() if v & 0x80 else v

        def name(s):
            n = s.u8()
            need(s.i + n <= len(s.d), "record too short")
            s.i += n
            return s.d[s.i - n:s.i].decode("latin1")

        def end(s):
            return s.i >= len(s.d)

    def fix(r, big, fixdat=None, end=False):
        """frame, target, displacement of a FIXDAT field"""
        f = r.u8()
        if f & 0x80:
            frame = thr.get(("F", f >> 4 & 3))
            need(frame, "undefined frame thread")
        else:
            m = f >> 4 & 7
            frame = (m, r.idx() if m < 3 else None)
        if f & 8:
            t = thr.get(("T", f & 3))
            need(t, "undefined target thread")
            tm = t
        else:
            tm = (f & 3, r.idx())
        disp = r.ofs(big) if not f & 4 else 0
        return frame, tm, disp

    while p < len(b):
        need(not done, "data after MODEND")
        need(p + 3 <= len(b), "truncated record")
        ty, ln = b[p], b[p + 1] | b[p + 2] << 8
        need(ln >= 1 and p + 3 + ln <= len(b), "record %02x length" % ty)
        body = b[p + 3:p + 2 + ln]
        chk = b[p + 2 + ln]
        need(chk == 0 or sum(b[p:p + 3 + ln]) & 255 == 0, "checksum of record %02x" % ty)
        r = R(body)
        big = ty & 1
        t = ty & 0xfe
        p += 3 + ln
        if t == 0x80:
            o.name = r.name()
        elif t == 0x88:
            o.coments.append((r.u8(), r.u8(), body[2:]))
            if body[1] == 0xa0 and body[2:3] == b"\x01":
                pass
        elif t in (0x96, 0xca):
            while not r.end():
                lnames.append(r.name())
        elif t == 0x98:
            a = r.u8()
            al = a >> 5
            fr = (r.u16(), r.u8()) if al == 0 else None
            size = r.ofs(big)
            if a & 2:
                need(size == 0, "big segment with a length")
                size = 0x10000 if not big else 1 << 32
            nm, cl, ov = r.idx(), r.idx(), r.idx()
            need(max(nm, cl, ov) < len(lnames), "name index")
            s = Sec(lnames[nm], cls=lnames[cl], size=size, align={0: 1, 1: 1, 2: 2, 3: 16, 4: 256, 5: 4, 6: 4096}[al], combine=a >> 2 & 7, use32=a & 1, frame=fr,
                    idx=len(o.segs), written={}, aligncode=al)
            o.segs.append(s)
            o.secs.append(s)
        elif t == 0x9a:
            nm = r.idx()
            g = []
            while not r.end():
                need(r.u8() == 0xff, "group component")
                g.append(o.segs[r.idx()])
            o.groups.append((lnames[nm], g))
        elif t in (0x8c, 0xb4):
            while not r.end():
                n = r.name()
                r.idx()
                y = Sym(n, None, 0, glob=t == 0x8c, idx=len(o.ext))
                o.ext.append(y)
                o.syms.append(y)
        elif t in (0xb0, 0xb8):
            while not r.end():
                n = r.name()
                r.idx()
                k = r.u8()

                def cl():
                    v = r.u8()
                    if v <= 0x80:
                        return v
                    return r.u16() if v == 0x81 else r.u16() | r.u8() << 16 if v == 0x84 else r.u32()
                sz = cl() * cl() if k == 0x61 else cl()
                y = Sym(n, "common", 0, glob=True, size=sz, far=k == 0x61, idx=len(o.ext))
                o.ext.append(y)
                o.syms.append(y)
        elif t == 0xbc:
            while not r.end():
                n = lnames[r.idx()]
                r.idx()
                y = Sym(n, None, 0, glob=True, idx=len(o.ext))
                o.ext.append(y)
        elif t in (0x90, 0xb6):
            g, sgi = r.idx(), r.idx()
            fr = r.u16() if sgi == 0 else None
            while not r.end():
                n = r.name()
                v = r.ofs(big)
                r.idx()
                y = Sym(n, o.segs[sgi] if sgi else "abs", v, glob=t == 0x90, group=g, frame=fr)
                o.syms.append(y)
                o.pubs.append(y)
        elif t == 0xa0:
            s = o.segs[r.idx()]
            off = r.ofs(big)
            d = body[r.i:]
            need(len(d) <= 1024, "LEDATA of %d bytes" % len(d))
            need(off + len(d) <= s.size, "data outside segment %s" % s.name)
            for k, x in enumerate(d):
                s.written[off + k] = x
                # a fixup belongs to the data record before it; data written over it is new
                s.relocs = [q for q in s.relocs if not (q.off <= off + k < q.off + q.len)] if s.relocs and s.relocs[-1].off + 8 > off else s.relocs
            last = (s, off, len(d))
        elif t == 0xa2:
            s = o.segs[r.idx()]
            off = r.ofs(big)

            def blk():
                rep = r.ofs(big)
                n = r.u16()
                if n == 0:
                    k = r.u8()
                    r.i += k
                    return body[r.i - k:r.i] * rep
                return b"".join(blk() for _ in range(n)) * rep
            d = b"".join(iter(lambda: blk() if not r.end() else b"", b""))
            for k, x in enumerate(d):
                s.written[off + k] = x
            last = (s, off, len(d))
        elif t == 0x9c:
            while not r.end():
                c = r.u8()
                if c & 0x80:
                    v = c << 8 | r.u8()
                    loc = v >> 10 & 15
                    selfrel = not v & 0x4000
                    frame, tgt, disp = fix(r, big)
                    need(last, "FIXUPP without data")
                    need((v & 0x3ff) < last[2], "fixup outside its data record")
                    s = last[0]
                    ln_ = {0: 1, 1: 2, 2: 2, 3: 4, 4: 1, 5: 2, 9: 4, 11: 6, 13: 4, 6: 6}.get(loc)
                    need(ln_, "fixup location type %d" % loc)
                    need((v & 0x3ff) + ln_ <= last[2], "fixup runs over its data record")
                    s.relocs.append(Rel(last[1] + (v & 0x3ff), loc, None, disp, selfrel=selfrel, frame=frame, target=tgt, len=ln_))
                else:
                    m = c >> 2 & 7
                    if c & 0x40:
                        thr[("F", c & 3)] = (m, r.idx() if m < 3 else None)
                    else:
                        thr[("T", c & 3)] = (m & 3, r.idx())
        elif t == 0x94:
            r.idx()
            s = o.segs[r.idx()]
            while not r.end():
                l = r.u16()
                o.lines.append((s, r.ofs(big), l))
        elif t == 0x8a:
            m = r.u8()
            if m & 0x40:
                o.entry = fix(r, big)
            done = True
        elif t in (0xc2, 0xc4, 0x8e, 0xb2, 0xc6, 0xc8, 0xcc):
            o.other = getattr(o, "other", []) + [t]
        else:
            raise Bad("record type %02x" % ty)
    need(done, "no MODEND")
    for s in o.secs:
        d = bytearray(min(s.size, 1 << 22))
        for k, x in s.written.items():
            d[k] = x
        s.data = bytes(d)
    return o


# ----------------------------------------------------------------- Mach-O --
def macho(b):
    o = Obj()
    need(b[:4] == b"\xcf\xfa\xed\xfe", "no Mach-O header")
    _, cpu, sub, typ, ncmds, szcmds, fl, _ = struct.unpack_from("<IIIIIIII", b)
    need(typ == 1, "file type")
    o.bits = 64
    p = 32
    need(32 + szcmds <= len(b), "commands outside the file")
    o.symtab = None
    for _ in range(ncmds):
        c, sz = struct.unpack_from("<II", b, p)
        need(sz >= 8 and p + sz <= 32 + szcmds, "command size")
        if c == 0x19:
            nm, va, vs, fo, fs, mp, ip, ns, f = struct.unpack_from("<16sQQQQiiII", b, p + 8)
            need(sz == 72 + 80 * ns, "segment command size")
            for k in range(ns):
                sn, gn, ad, size, off, al, ro, nr, sf, r1, r2, r3 = struct.unpack_from("<16s16sQQIIIIIIII", b, p + 72 + 80 * k)
                s = Sec(sn.rstrip(b"\0").decode("latin1"), seg=gn.rstrip(b"\0").decode("latin1"), addr=ad, size=size, off=off, align=1 << al, flags=sf, idx=len(o.secs) + 1)
                s.nobits = sf & 255 == 1
                if not s.nobits:
                    need(off + size <= len(b), "section outside the file")
                    s.data = b[off:off + size]
                s._rel = (ro, nr)
                o.secs.append(s)
        elif c == 2:
            o.symtab = struct.unpack_from("<IIII", b, p + 8)
        p += sz
    tab = []
    if o.symtab:
        so, n, st, ss = o.symtab
        need(so + 16 * n <= len(b) and st + ss <= len(b), "symbol table outside the file")
        strs = b[st:st + ss]
        for i in range(n):
            x, ty, se, de, v = struct.unpack_from("<IBBHQ", b, so + 16 * i)
            sec = None
            if ty & 0xe == 0xe:
                need(0 < se <= len(o.secs), "symbol section")
                sec = o.secs[se - 1]
            elif ty & 0xe == 2:
                sec = "abs"
            tab.append(Sym(cstr(strs, x), sec, v - (sec.addr if isinstance(sec, Sec) else 0), glob=bool(ty & 1), type=ty, desc=de, idx=i))
    o.syms = tab
    for s in o.secs:
        ro, nr = s._rel
        need(ro + 8 * nr <= len(b), "relocations outside the file")
        for k in range(nr):
            ad, w = struct.unpack_from("<iI", b, ro + 8 * k)
            n = w & 0xffffff
            ext = w >> 27 & 1
            tgt = tab[n] if ext else o.secs[n - 1]
            s.relocs.append(Rel(ad, w >> 28, tgt, None, pcrel=w >> 24 & 1, len=1 << (w >> 25 & 3), ext=ext))
    return o

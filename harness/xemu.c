/* A small interpreter for the instructions the assembler generates on its own (HLL directives, INVOKE, prologues and epilogues), for
 * 16-, 32- and 64-bit code.  It is the machine the generated code is run on, one step at a time and with every access visible:
 *   INT n         is an event (n is appended to the trace) and changes nothing else;
 *   a read of the I/O window consumes the next value of the script and is an event too; the run ends if the script is exhausted;
 *   HLT           ends the run;
 *   any access outside the two memory regions, and any instruction that isn't known, ends the run with an error.
 * Undefined flags are set to the given pattern, so code that depends on them is found.  */
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <math.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64; typedef int32_t i32;

enum { HALT = 0, FAULT = 1, UNKNOWN = 2, STEPS = 3, SCRIPT = 4, DIVERR = 5, TRACEFULL = 6, STOPPED = 7, ALIGNERR = 8, RUNNING = 9 };
enum { CF = 1, PF = 4, AF = 16, ZF = 64, SF = 128, DF = 1024, OF = 2048 };

struct cpu {
    u64 r[16], rip, fl;
    u64 sbase[6];              /* ES CS SS DS FS GS */
    u8 x[32][64];
    u64 mode;                  /* 16, 32, 64 */
    u8 *m1; u64 b1, n1;        /* image */
    u8 *m2; u64 b2, n2;        /* stack */
    u64 io, nio;               /* I/O window: nio cells of 8 bytes */
    u64 *script; u64 nscript, pos;
    u64 *trace; u64 ntrace, maxtrace;
    u64 steps, stop, fault, status, undef;
    u64 minsp;                 /* lowest stack pointer */
    u16 seg[6];
    u64 wlo, whi, wcount;      /* writes to [wlo,whi) are counted */
    double st[8]; u64 fsp;
};

#define T(c, v) do { if ((c)->ntrace < (c)->maxtrace) (c)->trace[(c)->ntrace++] = (v); else (c)->status = TRACEFULL; } while (0)

static u8 *mem(struct cpu *c, u64 a, unsigned n)
{
    if (c->n1 >= n && a - c->b1 <= c->n1 - n) return c->m1 + (a - c->b1);
    if (c->n2 >= n && a - c->b2 <= c->n2 - n) return c->m2 + (a - c->b2);
    if (c->status == RUNNING) { c->status = FAULT; c->fault = a; }
    return 0;
}
static u64 rd(struct cpu *c, u64 a, unsigned n)
{
    u64 v = 0; u8 *p;
    if (c->nio && a - c->io < 8 * c->nio) {
        if (c->pos >= c->nscript) { if (c->status == RUNNING) c->status = SCRIPT; T(c, 0x1000 + (a - c->io) / 8); return 0; }
        T(c, 0x1000 + (a - c->io) / 8);
        v = c->script[c->pos++];
        return n < 8 ? v & ((1ULL << 8 * n) - 1) : v;
    }
    if ((p = mem(c, a, n))) memcpy(&v, p, n);
    return v;
}
static void wr(struct cpu *c, u64 a, unsigned n, u64 v)
{
    u8 *p = mem(c, a, n);
    if (p && c->status == RUNNING) { memcpy(p, &v, n); if (a + n > c->wlo && a < c->whi) c->wcount++; }
}
static u64 msk(u64 v, unsigned n) { return n >= 8 ? v : v & ((1ULL << 8 * n) - 1); }
static i64 sx(u64 v, unsigned n) { return n >= 8 ? (i64)v : (i64)(v << (64 - 8 * n)) >> (64 - 8 * n); }

struct ins {
    int osz, asz, rex, rexw, r, x, b, seg, rep, modrm, mod, reg, rm, p66, vex, vexl, vvvv, map, pp;
    u64 ea; int hasea; u64 ip;
};
static u8 f8(struct cpu *c, struct ins *i) { u8 *p = mem(c, c->sbase[1] + i->ip, 1); i->ip++; return p ? *p : 0; }
static u64 fn(struct cpu *c, struct ins *i, int n) { u64 v = 0; for (int k = 0; k < n; k++) v |= (u64)f8(c, i) << 8 * k; return v; }

static u64 getr(struct cpu *c, struct ins *i, int n, int r)
{
    if (n == 1 && !i->rex && !i->vex && r >= 4 && r < 8) return (c->r[r - 4] >> 8) & 255;
    return msk(c->r[r], n);
}
static void setr(struct cpu *c, struct ins *i, int n, int r, u64 v)
{
    if (n == 1 && !i->rex && !i->vex && r >= 4 && r < 8) { c->r[r - 4] = (c->r[r - 4] & ~0xff00ULL) | (v & 255) << 8; return; }
    if (n == 8) c->r[r] = v;
    else if (n == 4) c->r[r] = (u32)v;
    else if (n == 2) c->r[r] = (c->r[r] & ~0xffffULL) | (u16)v;
    else c->r[r] = (c->r[r] & ~0xffULL) | (u8)v;
}
static __thread u64 lin;  /* linear address of the memory operand; ea is its offset */
static void modrm(struct cpu *c, struct ins *i, int immsz)
{
    int m = f8(c, i), d = 0, seg = 3; u64 ea = 0; i64 disp = 0;
    i->modrm = m; i->mod = m >> 6; i->reg = (m >> 3 & 7) | i->r << 3; i->rm = m & 7;
    i->hasea = i->mod != 3;
    if (i->mod == 3) { i->rm |= i->b << 3; return; }
    if (i->asz == 2) {
        static const signed char B[8] = { 3, 3, 5, 5, 6, 7, 5, 3 }, I[8] = { 6, 7, 6, 7, -1, -1, -1, -1 };
        if (i->mod == 0 && i->rm == 6) { ea = fn(c, i, 2); }
        else {
            ea = c->r[(int)B[i->rm]]; if (B[i->rm] == 5) seg = 2;
            if (I[i->rm] >= 0) ea += c->r[(int)I[i->rm]];
            if (i->mod == 1) disp = sx(f8(c, i), 1); else if (i->mod == 2) disp = sx(fn(c, i, 2), 2);
        }
        ea = (u16)(ea + disp);
    } else {
        if (i->rm == 4) {
            int s = f8(c, i), base = (s & 7), idx = (s >> 3 & 7) | i->x << 3;
            if (base == 5 && i->mod == 0) disp = sx(fn(c, i, 4), 4);
            else { ea = c->r[base | i->b << 3]; if ((base == 4 || base == 5) && !i->b) seg = 2; }
            if (idx != 4) ea += c->r[idx] << (s >> 6);
        } else if (i->rm == 5 && i->mod == 0) {
            disp = sx(fn(c, i, 4), 4);
            if (c->mode == 64) d = 1;
        } else { ea = c->r[i->rm | i->b << 3]; if (i->rm == 5 && !i->b) seg = 2; }
        if (i->mod == 1) disp = sx(f8(c, i), 1); else if (i->mod == 2) disp = sx(fn(c, i, 4), 4);
        ea += disp;
        if (d) ea += i->ip + immsz;
        if (i->asz == 4) ea = (u32)ea;
    }
    if (i->seg >= 0) seg = i->seg;
    i->ea = ea; 
    if (c->mode != 64 || seg >= 4) ea += c->sbase[seg];
    if (c->mode == 16) ea &= 0xfffff; else if (c->mode == 32) ea = (u32)ea;
    i->rm = -1;
    lin = ea;
}
static u64 getrm(struct cpu *c, struct ins *i, int n) { return i->mod == 3 ? getr(c, i, n, i->rm) : rd(c, lin, n); }
static void setrm(struct cpu *c, struct ins *i, int n, u64 v) { if (c->status != RUNNING) return; if (i->mod == 3) setr(c, i, n, i->rm, v); else wr(c, lin, n, v); }

static void pz(struct cpu *c, u64 v, int n)
{
    v = msk(v, n); c->fl &= ~(u64)(PF | ZF | SF);
    if (!v) c->fl |= ZF;
    if (v >> (8 * n - 1) & 1) c->fl |= SF;
    if (!(__builtin_popcount(v & 255) & 1)) c->fl |= PF;
}
static void fset(struct cpu *c, u64 f, int on) { if (on) c->fl |= f; else c->fl &= ~f; }
static u64 alu(struct cpu *c, int op, u64 a, u64 b, int n)
{
    u64 v; int cy = c->fl & CF; u64 s = 1ULL << (8 * n - 1);
    a = msk(a, n); b = msk(b, n);
    switch (op) {
    case 0: case 2: { int k = op == 2 ? cy : 0; v = msk(a + b + k, n); fset(c, CF, n == 8 ? (v < a || (k && v == a)) : (a + b + k) >> 8 * n & 1);
        fset(c, OF, ((a ^ v) & (b ^ v) & s) != 0); fset(c, AF, (a ^ b ^ v) & 16); break; }
    case 3: case 5: case 7: { int k = op == 3 ? cy : 0; v = msk(a - b - k, n); fset(c, CF, a < b || (k && a == b));
        fset(c, OF, ((a ^ b) & (a ^ v) & s) != 0); fset(c, AF, (a ^ b ^ v) & 16); break; }
    case 1: v = a | b; goto lg;
    case 4: v = a & b; goto lg;
    default: v = a ^ b;
    lg: c->fl &= ~(u64)(CF | OF); fset(c, AF, c->undef); break;
    }
    pz(c, v, n); return v;
}
static int cc(struct cpu *c, int n)
{
    u64 f = c->fl; int r;
    switch (n >> 1) {
    case 0: r = !!(f & OF); break;
    case 1: r = !!(f & CF); break;
    case 2: r = !!(f & ZF); break;
    case 3: r = !!(f & (CF | ZF)); break;
    case 4: r = !!(f & SF); break;
    case 5: r = !!(f & PF); break;
    case 6: r = !!(f & SF) != !!(f & OF); break;
    default: r = (f & ZF) || (!!(f & SF) != !!(f & OF));
    }
    return r ^ (n & 1);
}
static unsigned spsz(struct cpu *c) { return c->mode == 64 ? 8 : c->mode == 32 ? 4 : 2; }
static void push(struct cpu *c, int n, u64 v)
{
    u64 sp = c->r[4] - n; struct ins d = { .rex = 1 };
    if (c->mode == 16) sp = (u16)sp; else if (c->mode == 32) sp = (u32)sp;
    wr(c, sp + (c->mode == 64 ? 0 : c->sbase[2]), n, v);
    if (c->status == RUNNING) { setr(c, &d, spsz(c), 4, sp); if (sp < c->minsp) c->minsp = sp; }
}
static u64 pop(struct cpu *c, int n)
{
    u64 sp = msk(c->r[4], spsz(c)), v; struct ins d = { .rex = 1 };
    v = rd(c, sp + (c->mode == 64 ? 0 : c->sbase[2]), n);
    if (c->status == RUNNING) setr(c, &d, spsz(c), 4, sp + n);
    return v;
}
static void jump(struct cpu *c, struct ins *i, u64 to, int osz) { if (c->mode == 64) i->ip = to; else if (osz == 2) i->ip = (u16)to; else i->ip = (u32)to; }

static u64 shift(struct cpu *c, int op, u64 a, unsigned k, int n)
{
    unsigned bits = 8 * n; u64 v = msk(a, n), s = 1ULL << (bits - 1); int cf = c->fl & CF;
    k &= n == 8 ? 63 : 31;
    if (!k) return v;
    for (unsigned j = 0; j < k; j++) {
        int o;
        switch (op) {
        case 0: o = (v & s) != 0; v = msk(v << 1 | o, n); cf = o; break;
        case 1: o = v & 1; v = v >> 1 | (o ? s : 0); cf = o; break;
        case 2: o = (v & s) != 0; v = msk(v << 1 | cf, n); cf = o; break;
        case 3: o = v & 1; v = v >> 1 | (cf ? s : 0); cf = o; break;
        case 4: case 6: cf = (v & s) != 0; v = msk(v << 1, n); break;
        case 5: cf = v & 1; v >>= 1; break;
        default: cf = v & 1; v = (v >> 1) | (v & s);
        }
    }
    fset(c, CF, cf);
    if (op >= 4) { pz(c, v, n); fset(c, AF, c->undef); }
    if (k != 1) fset(c, OF, c->undef);
    else if (op == 5) fset(c, OF, (a & s) != 0);
    else if (op == 7) fset(c, OF, 0);
    else if (op == 1 || op == 3) fset(c, OF, !!(v & s) != !!(v & s >> 1));
    else fset(c, OF, !!(v & s) != cf);
    return v;
}
static float rf(struct cpu *c, struct ins *i) { u32 v = i->mod == 3 ? *(u32 *)c->x[i->rm] : (u32)rd(c, lin, 4); float f; memcpy(&f, &v, 4); return f; }
static double rdb(struct cpu *c, struct ins *i) { u64 v = i->mod == 3 ? *(u64 *)c->x[i->rm] : rd(c, lin, 8); double f; memcpy(&f, &v, 8); return f; }
static void xrd(struct cpu *c, u8 *d, int n) { for (int k = 0; k < n; k += n < 8 ? n : 8) { u64 v = rd(c, lin + k, n < 8 ? n : 8); memcpy(d + k, &v, n < 8 ? n : 8); } }
static void xwr(struct cpu *c, u8 *s, int n) { for (int k = 0; k < n; k += n < 8 ? n : 8) { u64 v = 0; memcpy(&v, s + k, n < 8 ? n : 8); wr(c, lin + k, n < 8 ? n : 8, v); } }

/* SSE/AVX moves, compares and logic. returns 0 if not known */
static int simd(struct cpu *c, struct ins *i, int op)
{
    int pp = i->vex ? i->pp : i->rep == 0xf3 ? 2 : i->rep == 0xf2 ? 3 : i->p66 ? 1 : 0;
    int n = i->vex && i->vexl ? 32 : 16, w = i->rexw;
    u8 t[64]; int k;
#define ZHI(r, from) do { if (i->vex) memset(c->x[r] + (from), 0, 64 - (from)); } while (0)
    switch (op) {
    case 0x10: case 0x11: case 0x28: case 0x29: case 0x6f: case 0x7f: case 0x12: case 0x13: case 0x16: case 0x17: case 0x2b: case 0xe7:
    case 0x6e: case 0x7e: case 0xd6:
        modrm(c, i, 0);
        if (op == 0x10 || op == 0x11) {
            int sz = pp == 2 ? 4 : pp == 3 ? 8 : n;
            if (op == 0x10) {
                if (i->mod == 3) { if (sz < 16) { if (i->vex) { memcpy(t, c->x[i->vvvv], 16); memcpy(t, c->x[i->rm], sz); memcpy(c->x[i->reg], t, 16); ZHI(i->reg, 16); } else memcpy(c->x[i->reg], c->x[i->rm], sz); }
                    else { memcpy(c->x[i->reg], c->x[i->rm], sz); ZHI(i->reg, sz); } }
                else { xrd(c, t, sz); if (sz < 16) memset(c->x[i->reg], 0, 16); memcpy(c->x[i->reg], t, sz); ZHI(i->reg, sz < 16 ? 16 : sz); }
            } else {
                if (i->mod == 3) { if (sz < 16 && i->vex) { memcpy(t, c->x[i->vvvv], 16); memcpy(t, c->x[i->reg], sz); memcpy(c->x[i->rm], t, 16); ZHI(i->rm, 16); } else { memcpy(c->x[i->rm], c->x[i->reg], sz); if (sz >= 16) ZHI(i->rm, sz); } }
                else xwr(c, c->x[i->reg], sz);
            }
            return 1;
        }
        if (op == 0x28 || op == 0x29 || op == 0x2b || op == 0xe7 || ((op == 0x6f || op == 0x7f) && (pp == 1 || pp == 2))) {
            int al = !((op == 0x6f || op == 0x7f) && pp == 2);
            if ((op == 0x28 || op == 0x29 || op == 0x2b) && pp > 1) return 0;
            if (i->mod != 3 && al && lin % n) { c->status = ALIGNERR; c->fault = lin; return 1; }
            if (op == 0x28 || op == 0x6f) { if (i->mod == 3) memcpy(c->x[i->reg], c->x[i->rm], n); else { xrd(c, t, n); memcpy(c->x[i->reg], t, n); } ZHI(i->reg, n); }
            else { if (i->mod == 3) { memcpy(c->x[i->rm], c->x[i->reg], n); ZHI(i->rm, n); } else xwr(c, c->x[i->reg], n); }
            return 1;
        }
        if (op == 0x6e && pp == 1) { u64 v = getrm(c, i, w ? 8 : 4); memset(c->x[i->reg], 0, 16); memcpy(c->x[i->reg], &v, 8); ZHI(i->reg, 16); return 1; }
        if (op == 0x7e && pp == 1) { u64 v = *(u64 *)c->x[i->reg]; setrm(c, i, w ? 8 : 4, v); return 1; }
        if (op == 0x7e && pp == 2) { if (i->mod == 3) memcpy(t, c->x[i->rm], 8); else xrd(c, t, 8); memset(c->x[i->reg], 0, 16); memcpy(c->x[i->reg], t, 8); ZHI(i->reg, 16); return 1; }
        if (op == 0xd6 && pp == 1) { if (i->mod == 3) { memset(c->x[i->rm] + 8, 0, 8); memcpy(c->x[i->rm], c->x[i->reg], 8); ZHI(i->rm, 16); } else xwr(c, c->x[i->reg], 8); return 1; }
        if ((op == 0x12 || op == 0x16) && pp < 2) {
            int hi = op == 0x16 ? 8 : 0; if (i->mod == 3) memcpy(t, c->x[i->rm] + (hi ? 0 : 8), 8); else xrd(c, t, 8);
            if (i->vex) { u8 q[16]; memcpy(q, c->x[i->vvvv], 16); memcpy(q + hi, t, 8); memcpy(c->x[i->reg], q, 16); ZHI(i->reg, 16); } else memcpy(c->x[i->reg] + hi, t, 8); return 1; }
        if ((op == 0x13 || op == 0x17) && pp < 2 && i->mod != 3) { xwr(c, c->x[i->reg] + (op == 0x17 ? 8 : 0), 8); return 1; }
        return 0;
    case 0x2e: case 0x2f: {
        modrm(c, i, 0); double a, b;
        if (pp == 0) { float f; memcpy(&f, c->x[i->reg], 4); a = f; b = rf(c, i); } else if (pp == 1) { memcpy(&a, c->x[i->reg], 8); b = rdb(c, i); } else return 0;
        c->fl &= ~(u64)(CF | PF | AF | ZF | SF | OF);
        if (isnan(a) || isnan(b)) c->fl |= CF | PF | ZF; else if (a < b) c->fl |= CF; else if (a == b) c->fl |= ZF;
        return 1; }
    case 0x57: case 0xef: case 0x54: case 0x56: case 0xeb: case 0xdb: {
        modrm(c, i, 0); u8 s[64]; if (i->mod == 3) memcpy(s, c->x[i->rm], n); else xrd(c, s, n);
        memcpy(t, c->x[i->vex ? i->vvvv : i->reg], n);
        for (k = 0; k < n; k++) t[k] = op == 0x57 || op == 0xef ? t[k] ^ s[k] : op == 0x54 || op == 0xdb ? t[k] & s[k] : t[k] | s[k];
        memcpy(c->x[i->reg], t, n); ZHI(i->reg, n); return 1; }
    case 0x5a: { modrm(c, i, 0);
        if (pp == 2) { double d = rf(c, i); memcpy(c->x[i->reg], &d, 8); } else if (pp == 3) { float f = rdb(c, i); memcpy(c->x[i->reg], &f, 4); } else return 0;
        return 1; }
    case 0x2a: { modrm(c, i, 0); i64 v = sx(getrm(c, i, w ? 8 : 4), w ? 8 : 4);
        if (pp == 2) { float f = v; memcpy(c->x[i->reg], &f, 4); } else if (pp == 3) { double d = v; memcpy(c->x[i->reg], &d, 8); } else return 0; return 1; }
    case 0x2c: case 0x2d: { modrm(c, i, 0); double d; if (pp == 2) d = rf(c, i); else if (pp == 3) d = rdb(c, i); else return 0;
        if (op == 0x2d) d = nearbyint(d); setr(c, i, w ? 8 : 4, i->reg, w ? (u64)(i64)d : (u64)(i32)d); return 1; }
    case 0x14: if (pp > 1) return 0; modrm(c, i, 0); if (i->mod == 3) memcpy(t, c->x[i->rm], 16); else xrd(c, t, 16);
        if (pp == 0) { u8 s[16]; memcpy(s, c->x[i->reg], 16); memcpy(c->x[i->reg], s, 4); memcpy(c->x[i->reg] + 4, t, 4); memcpy(c->x[i->reg] + 8, s + 4, 4); memcpy(c->x[i->reg] + 12, t + 4, 4); }
        else memcpy(c->x[i->reg] + 8, t, 8); return 1;
    case 0x6c: if (pp != 1) return 0; modrm(c, i, 0); if (i->mod == 3) memcpy(t, c->x[i->rm], 16); else xrd(c, t, 16); memcpy(c->x[i->reg] + 8, t, 8); return 1;
    }
    return 0;
}

static int x87(struct cpu *c, struct ins *i, int op)
{
    modrm(c, i, 0);
    if (i->mod == 3) return 0;
    int k = i->modrm >> 3 & 7; double d; float f; u64 v;
    if (op == 0xd9 && k == 0) { v = rd(c, lin, 4); memcpy(&f, &v, 4); c->st[--c->fsp & 7] = f; return 1; }
    if (op == 0xdd && k == 0) { v = rd(c, lin, 8); memcpy(&d, &v, 8); c->st[--c->fsp & 7] = d; return 1; }
    if (op == 0xd9 && (k == 2 || k == 3)) { f = c->st[c->fsp & 7]; v = 0; memcpy(&v, &f, 4); wr(c, lin, 4, v); if (k == 3) c->fsp++; return 1; }
    if (op == 0xdd && (k == 2 || k == 3)) { d = c->st[c->fsp & 7]; memcpy(&v, &d, 8); wr(c, lin, 8, v); if (k == 3) c->fsp++; return 1; }
    return 0;
}

static void string1(struct cpu *c, struct ins *i, int op, int n)
{
    int am = i->asz; u64 si = msk(c->r[6], am), di = msk(c->r[7], am), st = c->fl & DF ? -(u64)n : n, v; struct ins d = { .rex = 1 };
    u64 sb = c->mode == 64 && i->seg < 4 ? 0 : c->sbase[i->seg >= 0 ? i->seg : 3], db = c->mode == 64 ? 0 : c->sbase[0];
    switch (op & 0xfe) {
    case 0xa4: wr(c, di + db, n, rd(c, si + sb, n)); break;
    case 0xa6: alu(c, 7, rd(c, si + sb, n), rd(c, di + db, n), n); break;
    case 0xaa: wr(c, di + db, n, c->r[0]); break;
    case 0xac: v = rd(c, si + sb, n); if (c->status == RUNNING) setr(c, &d, n, 0, v); break;
    case 0xae: alu(c, 7, c->r[0], rd(c, di + db, n), n); break;
    }
    if (c->status != RUNNING) return;
    if ((op & 0xfe) == 0xa4 || (op & 0xfe) == 0xa6 || (op & 0xfe) == 0xac) setr(c, &d, am, 6, si + st);
    if ((op & 0xfe) != 0xac) setr(c, &d, am, 7, di + st);
}

static void step(struct cpu *c)
{
    struct ins ii = { 0 }, *i = &ii; int op, n; u64 a, b, v;
    i->seg = -1; i->ip = c->rip;
    int o32 = c->mode != 16, a32 = c->mode == 16 ? 2 : c->mode == 32 ? 4 : 8;
    i->asz = a32;
    for (;;) {
        op = f8(c, i);
        if (c->status != RUNNING) return;
        if (op == 0x66) i->p66 = 1;
        else if (op == 0x67) i->asz = a32 == 2 ? 4 : a32 == 4 ? 2 : 4;
        else if (op == 0xf2 || op == 0xf3) i->rep = op;
        else if (op == 0xf0) ;
        else if (op == 0x26) i->seg = 0; else if (op == 0x2e) i->seg = 1; else if (op == 0x36) i->seg = 2; else if (op == 0x3e) i->seg = 3;
        else if (op == 0x64) i->seg = 4; else if (op == 0x65) i->seg = 5;
        else break;
    }
    if (c->mode == 64 && (op & 0xf0) == 0x40) { i->rex = 1; i->rexw = op >> 3 & 1; i->r = op >> 2 & 1; i->x = op >> 1 & 1; i->b = op & 1; op = f8(c, i); }
    i->osz = i->rexw ? 8 : (o32 ^ i->p66) ? 4 : 2;
    int ssz = c->mode == 64 ? (i->p66 ? 2 : 8) : i->osz;      /* push, pop, near branches */
    n = op & 1 ? i->osz : 1;
    int immz = i->osz == 2 ? 2 : 4;

    if ((op == 0xc5 || op == 0xc4) && (c->mode == 64 || ({ u8 *p = mem(c, c->sbase[1] + i->ip, 1); p && *p >= 0xc0; }))) {
        int p1 = f8(c, i); i->vex = 1; i->rex = 1;
        i->r = !(p1 >> 7 & 1); i->map = 1;
        if (op == 0xc4) { i->x = !(p1 >> 6 & 1); i->b = !(p1 >> 5 & 1); i->map = p1 & 31; p1 = f8(c, i); i->rexw = p1 >> 7; }
        i->vvvv = ~(p1 >> 3) & 15; i->vexl = p1 >> 2 & 1; i->pp = p1 & 3;
        if (c->mode != 64) { i->r = i->x = i->b = 0; i->vvvv &= 7; }
        op = f8(c, i);
        if (i->map != 1 || !simd(c, i, op)) { if (c->status == RUNNING) c->status = UNKNOWN; return; }
        goto done;
    }
    if (op < 0x40 && (op & 7) < 6) {
        int k = op >> 3;
        if ((op & 7) < 4) {
            modrm(c, i, 0);
            if (op & 2) { a = getr(c, i, n, i->reg); b = getrm(c, i, n); v = alu(c, k, a, b, n); if (k != 7) setr(c, i, n, i->reg, v); }
            else { a = getrm(c, i, n); b = getr(c, i, n, i->reg); v = alu(c, k, a, b, n); if (k != 7) setrm(c, i, n, v); }
        } else { b = op & 1 ? sx(fn(c, i, immz), immz) : f8(c, i); v = alu(c, k, getr(c, i, n, 0), b, n); if (k != 7) setr(c, i, n, 0, v); }
        goto done;
    }
    if (c->mode != 64 && op >= 0x40 && op < 0x50) {
        int r = op & 7, cf = c->fl & CF; v = alu(c, op < 0x48 ? 0 : 5, getr(c, i, i->osz, r), 1, i->osz); fset(c, CF, cf); setr(c, i, i->osz, r, v); goto done;
    }
    if (op >= 0x50 && op < 0x58) { push(c, ssz, c->r[(op & 7) | i->b << 3]); goto done; }
    if (op >= 0x58 && op < 0x60) { v = pop(c, ssz); if (c->status == RUNNING) setr(c, i, ssz, (op & 7) | i->b << 3, v); goto done; }
    if (op >= 0x70 && op < 0x80) { v = sx(f8(c, i), 1); if (cc(c, op & 15)) jump(c, i, i->ip + v, i->osz); goto done; }
    if (op >= 0x91 && op < 0x98) { int r = (op & 7) | i->b << 3; a = getr(c, i, i->osz, 0); b = getr(c, i, i->osz, r); setr(c, i, i->osz, 0, b); setr(c, i, i->osz, r, a); goto done; }
    if (op >= 0xb0 && op < 0xb8) { v = f8(c, i); setr(c, i, 1, (op & 7) | i->b << 3, v); goto done; }
    if (op >= 0xb8 && op < 0xc0) { v = fn(c, i, i->osz); setr(c, i, i->osz, (op & 7) | i->b << 3, v); goto done; }
    if (op >= 0xd8 && op < 0xe0) { if (!x87(c, i, op)) { if (c->status == RUNNING) c->status = UNKNOWN; return; } goto done; }
    switch (op) {
    case 0x06: case 0x0e: case 0x16: case 0x1e: push(c, ssz, c->seg[op >> 3]); break;
    case 0x60: { u64 sp = c->r[4]; for (int k = 0; k < 8; k++) push(c, i->osz, k == 4 ? sp : c->r[k]); break; }
    case 0x61: for (int k = 7; k >= 0; k--) { v = pop(c, i->osz); if (k != 4) setr(c, i, i->osz, k, v); } break;
    case 0x63: if (c->mode != 64) goto unk; modrm(c, i, 0); v = sx(getrm(c, i, 4), 4); setr(c, i, i->osz, i->reg, v); break;
    case 0x68: v = sx(fn(c, i, immz), immz); push(c, ssz, v); break;
    case 0x6a: v = sx(f8(c, i), 1); push(c, ssz, v); break;
    case 0x69: case 0x6b: modrm(c, i, op == 0x69 ? immz : 1); a = sx(getrm(c, i, i->osz), i->osz); b = op == 0x69 ? sx(fn(c, i, immz), immz) : sx(f8(c, i), 1);
        { __int128 p = (__int128)(i64)a * (i64)b; setr(c, i, i->osz, i->reg, (u64)p); fset(c, CF | OF, p != sx((u64)p, i->osz)); fset(c, ZF | SF | PF | AF, c->undef); } break;
    case 0x80: case 0x81: case 0x83: { modrm(c, i, op == 0x81 ? immz : 1); int k = i->modrm >> 3 & 7; a = getrm(c, i, n);
        b = op == 0x81 ? sx(fn(c, i, immz), immz) : (u64)sx(f8(c, i), 1); v = alu(c, k, a, b, n); if (k != 7) setrm(c, i, n, v); break; }
    case 0x84: case 0x85: modrm(c, i, 0); a = getrm(c, i, n); alu(c, 4, a, getr(c, i, n, i->reg), n); break;
    case 0x86: case 0x87: modrm(c, i, 0); a = getrm(c, i, n); b = getr(c, i, n, i->reg); setrm(c, i, n, b); setr(c, i, n, i->reg, a); break;
    case 0x88: case 0x89: modrm(c, i, 0); setrm(c, i, n, getr(c, i, n, i->reg)); break;
    case 0x8a: case 0x8b: modrm(c, i, 0); v = getrm(c, i, n); if (c->status == RUNNING) setr(c, i, n, i->reg, v); break;
    case 0x8c: modrm(c, i, 0); setrm(c, i, i->mod == 3 ? i->osz : 2, c->seg[i->reg % 6]); break;
    case 0x8d: modrm(c, i, 0); setr(c, i, i->osz, i->reg, i->ea); break;
    case 0x8f: modrm(c, i, 0); v = pop(c, ssz); if (i->mod == 3) setr(c, i, ssz, i->rm, v); else wr(c, lin, ssz, v); break;
    case 0x90: break;
    case 0x98: if (i->osz == 8) setr(c, i, 8, 0, sx(c->r[0], 4)); else if (i->osz == 4) setr(c, i, 4, 0, sx(c->r[0], 2)); else setr(c, i, 2, 0, sx(c->r[0], 1)); break;
    case 0x99: setr(c, i, i->osz, 2, sx(c->r[0], i->osz) < 0 ? ~0ULL : 0); break;
    case 0x9b: break;
    case 0x9c: push(c, ssz, (c->fl & 0xcd5) | 2); break;
    case 0x9d: c->fl = pop(c, ssz) & 0xcd5; break;
    case 0x9e: c->fl = (c->fl & ~0xd5ULL) | (c->r[0] >> 8 & 0xd5); break;
    case 0x9f: c->r[0] = (c->r[0] & ~0xff00ULL) | ((c->fl & 0xd5) | 2) << 8; break;
    case 0xa0: case 0xa1: a = fn(c, i, i->asz); if (c->mode != 64 || i->seg >= 4) a += c->sbase[i->seg >= 0 ? i->seg : 3]; v = rd(c, a, n); if (c->status == RUNNING) setr(c, i, n, 0, v); break;
    case 0xa2: case 0xa3: a = fn(c, i, i->asz); if (c->mode != 64 || i->seg >= 4) a += c->sbase[i->seg >= 0 ? i->seg : 3]; wr(c, a, n, c->r[0]); break;
    case 0xa8: case 0xa9: b = n == 1 ? f8(c, i) : (u64)sx(fn(c, i, immz), immz); alu(c, 4, c->r[0], b, n); break;
    case 0xa4: case 0xa5: case 0xaa: case 0xab: case 0xac: case 0xad: case 0xa6: case 0xa7: case 0xae: case 0xaf:
        if (!i->rep) { string1(c, i, op, n); break; }
        for (;;) {
            u64 cx = msk(c->r[1], i->asz); struct ins d = { .rex = 1 };
            if (!cx || c->status != RUNNING) break;
            string1(c, i, op, n); setr(c, &d, i->asz, 1, cx - 1);
            if (++c->steps > 10000000) { c->status = STEPS; break; }
            if ((op & 0xf6) == 0xa6 && !!(c->fl & ZF) != (i->rep == 0xf3)) break;
        }
        break;
    case 0xc0: case 0xc1: case 0xd0: case 0xd1: case 0xd2: case 0xd3: modrm(c, i, op < 0xd0 ? 1 : 0); { a = getrm(c, i, n); unsigned k = op < 0xd0 ? f8(c, i) : op < 0xd2 ? 1 : c->r[1] & 255;
        v = shift(c, i->modrm >> 3 & 7, a, k, n); setrm(c, i, n, v); break; }
    case 0xc2: a = fn(c, i, 2); v = pop(c, ssz); if (c->status == RUNNING) { struct ins d = { .rex = 1 }; setr(c, &d, spsz(c), 4, c->r[4] + a); jump(c, i, v, ssz); } break;
    case 0xc3: v = pop(c, ssz); if (c->status == RUNNING) jump(c, i, v, ssz); break;
    case 0xca: case 0xcb: a = op == 0xca ? fn(c, i, 2) : 0; v = pop(c, i->osz); b = pop(c, i->osz); if (c->status == RUNNING) { struct ins d = { .rex = 1 }; setr(c, &d, spsz(c), 4, c->r[4] + a); jump(c, i, v, i->osz); } break;
    case 0xc6: case 0xc7: modrm(c, i, n == 1 ? 1 : immz); v = n == 1 ? f8(c, i) : (u64)sx(fn(c, i, immz), immz); setrm(c, i, n, v); break;
    case 0xc8: { a = fn(c, i, 2); int l = f8(c, i); if (l) goto unk; push(c, ssz, c->r[5]); if (c->status != RUNNING) return; struct ins d = { .rex = 1 }; setr(c, &d, spsz(c), 5, c->r[4]); setr(c, &d, spsz(c), 4, c->r[4] - a); if (msk(c->r[4], spsz(c)) < c->minsp) c->minsp = msk(c->r[4], spsz(c)); break; }
    case 0xc9: { struct ins d = { .rex = 1 }; setr(c, &d, spsz(c), 4, c->r[5]); v = pop(c, ssz); if (c->status == RUNNING) setr(c, &d, ssz, 5, v); break; }
    case 0xcc: T(c, 3); break;
    case 0xcd: v = f8(c, i); T(c, v); break;
    case 0xe0: case 0xe1: case 0xe2: case 0xe3: { v = sx(f8(c, i), 1); struct ins d = { .rex = 1 }; u64 cx = msk(c->r[1], i->asz);
        if (op == 0xe3) { if (!cx) jump(c, i, i->ip + v, i->osz); } else { cx = msk(cx - 1, i->asz); setr(c, &d, i->asz, 1, cx); if (cx && (op == 0xe2 || !!(c->fl & ZF) == (op == 0xe1))) jump(c, i, i->ip + v, i->osz); } break; }
    case 0xe8: v = c->mode == 64 ? (u64)sx(fn(c, i, 4), 4) : (u64)sx(fn(c, i, i->osz), i->osz); push(c, ssz, i->ip); if (c->status == RUNNING) jump(c, i, i->ip + v, i->osz); break;
    case 0xe9: v = c->mode == 64 ? (u64)sx(fn(c, i, 4), 4) : (u64)sx(fn(c, i, i->osz), i->osz); jump(c, i, i->ip + v, i->osz); break;
    case 0xeb: v = sx(f8(c, i), 1); jump(c, i, i->ip + v, i->osz); break;
    case 0xf4: c->status = HALT; break;
    case 0xf5: c->fl ^= CF; break;
    case 0xf8: c->fl &= ~(u64)CF; break;
    case 0xf9: c->fl |= CF; break;
    case 0xfc: c->fl &= ~(u64)DF; break;
    case 0xfd: c->fl |= DF; break;
    case 0xf6: case 0xf7: { u8 *pk = mem(c, c->sbase[1] + i->ip, 1); int k = pk ? *pk >> 3 & 7 : 0; modrm(c, i, k < 2 ? (n == 1 ? 1 : immz) : 0); a = getrm(c, i, n);
        if (c->status != RUNNING) return;
        switch (k) {
        case 0: case 1: b = n == 1 ? f8(c, i) : (u64)sx(fn(c, i, immz), immz); alu(c, 4, a, b, n); break;
        case 2: setrm(c, i, n, ~a); break;
        case 3: v = alu(c, 5, 0, a, n); setrm(c, i, n, v); break;
        case 4: case 5: {
            u64 x = getr(c, i, n, 0); 
            if (n == 1) { u64 p = k == 4 ? (c->r[0] & 255) * a : (u64)(sx(c->r[0], 1) * sx(a, 1)); setr(c, i, 2, 0, p); fset(c, CF | OF, k == 4 ? p >> 8 & 255 : sx(p, 2) != sx(p, 1)); }
            else { unsigned __int128 p = k == 4 ? (unsigned __int128)msk(x, n) * a : (unsigned __int128)((__int128)sx(x, n) * sx(a, n)); u64 lo = msk((u64)p, n), hi = msk((u64)(p >> 8 * n), n);
                setr(c, i, n, 0, lo); setr(c, i, n, 2, hi); fset(c, CF | OF, k == 4 ? hi != 0 : hi != msk(sx(lo, n) < 0 ? ~0ULL : 0, n)); }
            fset(c, ZF | SF | PF | AF, c->undef); break; }
        default: {
            if (!a) { c->status = DIVERR; return; }
            unsigned __int128 d = n == 1 ? (c->r[0] & 0xffff) : ((unsigned __int128)msk(c->r[2], n) << 8 * n | msk(c->r[0], n));
            if (k == 6) { unsigned __int128 q = d / a, m = d % a; if (q >> 8 * n) { c->status = DIVERR; return; } if (n == 1) setr(c, i, 2, 0, (u64)q | (u64)m << 8); else { setr(c, i, n, 0, (u64)q); setr(c, i, n, 2, (u64)m); } }
            else { int sh = 128 - 16 * n; __int128 sd = sh ? (__int128)(d << sh) >> sh : (__int128)d; __int128 q = sd / sx(a, n), m = sd % sx(a, n); if (q != sx((u64)q, n)) { c->status = DIVERR; return; } if (n == 1) setr(c, i, 2, 0, ((u64)q & 255) | ((u64)m & 255) << 8); else { setr(c, i, n, 0, (u64)q); setr(c, i, n, 2, (u64)m); } }
            fset(c, CF | OF | ZF | SF | PF | AF, c->undef); break; }
        } break; }
    case 0xfe: case 0xff: { modrm(c, i, 0); int k = i->modrm >> 3 & 7; a = getrm(c, i, k >= 2 ? ssz : n); if (c->status != RUNNING) return;
        if (k < 2) { int cf = c->fl & CF; v = alu(c, k ? 5 : 0, a, 1, n); fset(c, CF, cf); setrm(c, i, n, v); }
        else if (op == 0xff && k == 2) { push(c, ssz, i->ip); if (c->status == RUNNING) jump(c, i, a, ssz); }
        else if (op == 0xff && k == 4) jump(c, i, a, ssz);
        else if (op == 0xff && k == 6) push(c, ssz, a);
        else goto unk;
        break; }
    case 0x0f: {
        op = f8(c, i); n = op & 1 ? i->osz : 1;
        if (op >= 0x80 && op < 0x90) { int z = c->mode == 64 ? 4 : i->osz; v = sx(fn(c, i, z), z); if (cc(c, op & 15)) jump(c, i, i->ip + v, i->osz); break; }
        if (op >= 0x90 && op < 0xa0) { modrm(c, i, 0); setrm(c, i, 1, cc(c, op & 15)); break; }
        if (op >= 0x40 && op < 0x50) { modrm(c, i, 0); v = getrm(c, i, i->osz); if (cc(c, op & 15)) setr(c, i, i->osz, i->reg, v); else if (i->osz == 4) setr(c, i, 4, i->reg, c->r[i->reg]); break; }
        if (op == 0x1f || op == 0x18 || op == 0x1e || op == 0x0d) { modrm(c, i, 0); break; }
        if (op == 0xa0 || op == 0xa8) { push(c, ssz, c->seg[op == 0xa0 ? 4 : 5]); break; }
        if (op == 0xaf) { modrm(c, i, 0); __int128 p = (__int128)sx(getr(c, i, i->osz, i->reg), i->osz) * sx(getrm(c, i, i->osz), i->osz); setr(c, i, i->osz, i->reg, (u64)p); fset(c, CF | OF, p != sx((u64)p, i->osz)); fset(c, ZF | SF | PF | AF, c->undef); break; }
        if (op == 0xb6 || op == 0xb7) { modrm(c, i, 0); v = getrm(c, i, op == 0xb6 ? 1 : 2); if (c->status == RUNNING) setr(c, i, i->osz, i->reg, v); break; }
        if (op == 0xbe || op == 0xbf) { modrm(c, i, 0); v = sx(getrm(c, i, op == 0xbe ? 1 : 2), op == 0xbe ? 1 : 2); if (c->status == RUNNING) setr(c, i, i->osz, i->reg, v); break; }
        if (op >= 0xc8 && op < 0xd0) { int r = (op & 7) | i->b << 3; setr(c, i, i->osz, r, i->osz == 8 ? __builtin_bswap64(c->r[r]) : __builtin_bswap32((u32)c->r[r])); break; }
        if (op == 0xba || op == 0xa3 || op == 0xab || op == 0xb3 || op == 0xbb) {
            modrm(c, i, op == 0xba ? 1 : 0); int k = op == 0xba ? i->modrm >> 3 & 3 : op == 0xa3 ? 0 : op == 0xab ? 1 : op == 0xb3 ? 2 : 3;
            a = getrm(c, i, i->osz); b = op == 0xba ? f8(c, i) : getr(c, i, i->osz, i->reg); if (op != 0xba && i->mod != 3) goto unk; b &= 8 * i->osz - 1;
            fset(c, CF, a >> b & 1); if (k == 1) a |= 1ULL << b; if (k == 2) a &= ~(1ULL << b); if (k == 3) a ^= 1ULL << b; if (k) setrm(c, i, i->osz, a);
            fset(c, OF | SF | PF | AF, c->undef); break; }
        if (op == 0xa4 || op == 0xac || op == 0xa5 || op == 0xad) goto unk;
        if (op == 0x0b) goto unk;
        if (simd(c, i, op)) break;
        goto unk; }
    default:
    unk: if (c->status == RUNNING) c->status = UNKNOWN; return;
    }
done:
    if (c->status == RUNNING || c->status == HALT) { c->rip = i->ip; u64 sp = msk(c->r[4], spsz(c)); if (sp < c->minsp) c->minsp = sp; }
}

/* run until something ends it; returns the status. c->stop: end when this address is reached */
int xrun(struct cpu *c, u64 maxsteps)
{
    c->status = RUNNING; c->steps = 0; c->pos = 0; c->ntrace = 0; c->minsp = ~0ULL;
    while (c->status == RUNNING) {
        if (c->stop && c->rip == c->stop) { c->status = STOPPED; break; }
        if (c->steps++ >= maxsteps) { c->status = STEPS; break; }
        step(c);
    }
    return (int)c->status;
}
/* one instruction */
int xstep(struct cpu *c) { c->status = RUNNING; step(c); return (int)c->status; }
int xsize(void) { return sizeof(struct cpu); }

/* many runs of one code with different registers and memory cells: for each of the n vectors, regs[k][] goes to the registers named in
 * ridx, cells[k][] is written (8 bytes) to the image at offset cofs; flags from fl. The first event of each run goes to out. */
int xgrid(struct cpu *c, u64 rip, u64 sp, int nr, const int *ridx, int nc, const u64 *cofs, int n, const u64 *vec, const u64 *fl, u64 *out, u64 maxsteps)
{
    for (int k = 0; k < n; k++) {
        const u64 *v = vec + (u64)k * (nr + nc);
        memset(c->r, 0x5a, sizeof c->r); c->r[4] = sp; c->rip = rip; c->fl = fl ? fl[k] : 0;
        for (int j = 0; j < nr; j++) { if (ridx[j] < 16) c->r[ridx[j]] = v[j]; else { memset(c->x[ridx[j] - 16], 0, 64); memcpy(c->x[ridx[j] - 16], &v[j], 8); } }
        for (int j = 0; j < nc; j++) memcpy(c->m1 + cofs[j], &v[nr + j], 8);
        int s = xrun(c, maxsteps);
        out[k] = s == HALT && c->ntrace ? c->trace[0] : 0x100000 + s;
    }
    return 0;
}

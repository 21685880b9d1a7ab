"""C20 a module's output depends only on that module and its options: every ordered pair (and triple of a subset) of a catalogue of modules,
each of which sets or observes some piece of assembler state, is assembled in one invocation, and each module's object, error file, listing and
messages are compared with those of the module assembled alone."""
import glob, itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
from vlib import *
from corpus import *

ck = Check("C20", variants=("plain", "asan") if os.environ.get("VERIF_TIER") == "thorough" else ("plain",))
T = ck.thorough

NAMES = "pqrt"


def single(ctx, opts, key, src, stem, var):
    c = ctx.__dict__.setdefault("cache", {})
    k = (tuple(opts), key, stem, var)
    if k not in c:
        if len(c) > 20000:
            c.clear()
        f = dict(FILES)
        f[stem + ".asm"] = src
        r = ctx.srv(var).job(["-q", "-nomlib"] + list(opts) + [stem + ".asm"], f)
        c[k] = (r.exit, outs(r, stem), DATE.sub(b"", r.text().encode("latin1")), r.sig)
    return c[k]


def judge(ctx, case):
    opts, seq, tag, var = case
    if tag == "regress":
        srcs = [(k, CORPUS[k]) if k in CORPUS else (k, DIRTY[k]) for k in seq]
    else:
        srcs = [(k, DIRTY[k]) for k in seq]
    n = len(srcs)
    stems = NAMES[4 - n:] if n <= 4 else None
    ones = [single(ctx, opts, k, s, st, var) for (k, s), st in zip(srcs, stems)]
    if any(o[0] is None or o[3] or b"A2169" in o[2] for o in ones):
        ctx.outcome("alone crashes", seq)       # C23's business
        return
    f = dict(FILES)
    for (k, s), st in zip(srcs, stems):
        f[st + ".asm"] = s
    r = ctx.srv(var).job(["-q", "-nomlib"] + list(opts) + [st + ".asm" for st in stems], f)
    name = "%s:%s" % ("_".join(opts), ">".join(seq))
    vs = []
    if r.sig or r.exit is None:
        return V("crash:" + name, "the invocation dies: %s %s" % (r.sig, r.text()[-300:]), opts=opts, srcs=srcs)
    fail = any(o[0] for o in ones)
    ctx.outcome(tag, opts[0], tuple(o[0] for o in ones))
    if (r.exit != 0) != fail:
        vs.append(V("status:" + name, "exit status %s, the modules alone have %s" % (r.exit, [o[0] for o in ones]), opts=opts, srcs=srcs))
    for (k, s), st, o in zip(srcs, stems, ones):
        got = outs(r, st)
        if got != o[1]:
            d = [x for x in set(got) | set(o[1]) if got.get(x) != o[1].get(x)]
            vs.append(V("%s:%s" % (k, name), "output of %s depends on the modules assembled before it: %s" % (k, ["%s %s/%s" % (x, len(got.get(x) or ""), len(o[1].get(x) or "")) for x in d]), opts=opts, srcs=srcs,
                        diff={x: [(got.get(x) or b"").hex()[:4000], (o[1].get(x) or b"").hex()[:4000]] for x in d}))
    want = b"".join(o[2] for o in ones)
    t = DATE.sub(b"", r.text().encode("latin1"))
    if not vs and sorted(t) != sorted(want):      # the two streams (ECHO, messages) are not in a defined order
        vs.append(V("text:" + name, "messages differ: %r instead of %r" % (t[-300:], want[-300:]), opts=opts, srcs=srcs))
    return vs or None


def g_pairs():
    for i, o in enumerate(OPTS):
        for a, b in itertools.product(KEYS, KEYS):
            if T or b in SENT or a in SENT or i in (0, 4):
                yield o, (a, b), "pair", "plain"


def g_triples():
    for o in OPTS if T else OPTS[:6]:
        for a, b, c in itertools.product(KEYS if T else ["err", "fatal", "frame", "renkw", "radix16", "s32"], KEYS if T else ["err", "errnest", "lits", "opts", "s64", "macros"], SENT):
            yield o, (a, b, c), "triple", "plain"


def g_self():
    for o in OPTS:
        for a in KEYS:
            yield o, (a, a), "self", "plain"
            yield o, (a, a, a, a), "self", "plain"


def g_regress():
    for i, k in enumerate(CORPUS):
        for s in SENT if T else ("s32p", "s64", "s64b", "sdef"):
            for o in OPTS[:9] if T else (OPTS[5], OPTS[4], OPTS[2]) if s != "sdef" else (OPTS[0],):
                yield o, (k, s), "regress", "plain"
        for a in KEYS if T else ("frame", "archavx", "errhll", "lits"):
            yield OPTS[4], (a, k), "regress", "plain"


def g_asan():
    for o in OPTS:
        for a, b in itertools.product(KEYS, SENT):
            yield o, (a, b), "asan", "asan"


ck.explore("pairs", g_pairs, judge)
ck.explore("triples", g_triples, judge)
ck.explore("repeated", g_self, judge)
ck.explore("with the regression sources", g_regress, judge)
if T:
    ck.explore("pairs under ASan", g_asan, judge)
ck.finish("every module's outputs and messages are those of the module alone; status is failure iff some module failed")

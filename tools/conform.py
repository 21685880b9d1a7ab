#!/usr/bin/env python3
"""Bind the native build (what the checks explore) to the shipped one: run the
project's regression sources through the native build and compare with the
expected files, the same way /opt/vp/runtests.py does with the Win64 build."""
import json, os, re, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib
from concurrent.futures import ThreadPoolExecutor
src = open("/opt/vp/runtests.py").read()
G = eval(re.search(r"GROUPS = (\[.*?\n\])", src, re.S)[1])
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
srv = vlib.build("plain")
tmp = tempfile.mkdtemp(prefix="uasmconf")
exe = tmp + "/uasm"
# the objects of the server link, minus the server, plus a plain main
open(tmp + "/m.c", "w").write('char *_pgmptr="uasm"; ' + "int uasm_main(int,char**); int main(int c,char**v){return uasm_main(c,v);}")
objs = []
d = vlib._bdir()
fl = ["gcc", "-w", "-fcommon", "-D__UNIX__", "-DNDEBUG", "-I/repo/H", "-I" + vlib.HARN + "/compat", "-O1", "-Dmain=uasm_main"]
ps = []
for m in vlib.repo_objects():
    x = ["-funsigned-char", "-include", vlib.HARN + "/compat/dbgcv_prelude.h"] if m == "dbgcv" else []
    ps.append(subprocess.Popen(fl + x + ["-c", "/repo/%s.c" % m, "-o", tmp + "/" + m + ".o"]))
for p in ps: assert p.wait() == 0
subprocess.check_call(["gcc", "-w", "-fcommon", "-o", exe, tmp + "/m.c"] + [tmp + "/%s.o" % m for m in vlib.repo_objects()] + ["-lm"])
os.symlink("/repo/regress/src", tmp + "/src")
def find(dr, n):
    try:
        for f in os.listdir(dr):
            if f.lower() == n.lower(): return dr + "/" + f
    except OSError: pass
def one(j):
    g, f = j
    dr, opts, ext, ee, skip, err = g
    n = os.path.splitext(f)[0]
    exp = find("/repo/regress/exp", dr) or ""
    cwd = tempfile.mkdtemp(dir=tmp)
    r = subprocess.run([exe] + opts.format(n=n).split() + ["../src/%s/%s" % (dr, f)], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    out = []
    if ext and find(exp, n + "." + ee) and "%s/%s.%s" % (dr, n, ext) in stable:
        got = find(cwd, n + "." + ext) or find(cwd, n + ".o")
        e = open(find(exp, n + "." + ee), "rb").read()
        ok = got and open(got, "rb").read()[skip:] == e[skip:]
        out.append(("%s/%s.%s" % (dr, n, ext), bool(ok), "" if got else "none"))
    if err and find(exp, n + ".err") and "%s/%s.err" % (dr, n) in stable:
        got = find(cwd, n + ".err")
        norm = lambda b: b.replace(b"\r\n", b"\n").replace(b"\\", b"/")
        ok = got and norm(open(got, "rb").read()) == norm(open(find(exp, n + ".err"), "rb").read())
        out.append(("%s/%s.err" % (dr, n), bool(ok), "" if got else "none"))
    return out
jobs = [(g, f) for g in G if os.path.isdir("/repo/regress/src/" + g[0]) for f in sorted(os.listdir("/repo/regress/src/" + g[0])) if f.lower().endswith(".asm")]
with ThreadPoolExecutor(8) as ex:
    res = [x for r in ex.map(one, jobs) for x in r]
bad = [x for x in res if not x[1]]
print(len(res), "stable comparisons;", len(bad), "differ:", bad)
shutil.rmtree(tmp, ignore_errors=True)

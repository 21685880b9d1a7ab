#!/usr/bin/env python3
"""mkseed.py: make /verif/seeded/<id>/ from (file, old, new) edits of /repo's HEAD and a demo body.
Used as a library by throw-away scripts; the demo body is bash that has `asm ARGS...` (runs the built uasm on files in $W),
`hex FILE`, and must set rc=1 on wrong behaviour."""
import json, os, subprocess, sys, tempfile
PRE = r'''#!/bin/bash
# exit 0: the property's behaviour is right; nonzero: broken.  Runs the program built in /repo (cwd) under wine.
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$W"' EXIT
export HOME=/root LC_ALL=C WINEPREFIX=/opt/vp/wine WINEDEBUG=-all WINEARCH=win64 WINEDLLOVERRIDES="mscoree,mshtml,winemenubuilder.exe,winedbg.exe=d"
unset DISPLAY ASM UASM JWASM INCLUDE
cd "$W" || exit 99
asm() { timeout 60 wine "$R/_build/win64/uasm.exe" -q -nomlib "$@" >"$W/out.txt" 2>&1; st=$?; }
hex() { od -An -v -tx1 "$1" 2>/dev/null | tr -d ' \n'; }
rc=0
want() { if [ "$1" != "$2" ]; then echo "got  $1"; echo "want $2"; rc=1; fi; }
# the program itself must work here
printf '.386\n.model flat\n.code\n nop\nend\n' > probe.asm
asm -bin probe.asm; [ "$(hex probe.bin)$(hex probe.BIN)" = 90 ] || { cat out.txt; echo "uasm does not run"; exit 98; }
'''


def mk(id, prop, edits, demo, needs, breaks):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    diff = ""
    byf = {}
    for f, old, new in edits:
        src = byf.get(f) or open("/repo/" + f, "rb").read().decode("latin1")
        crlf = "\r\n" in src
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert src.count(old) == 1, (f, src.count(old), old)
        byf[f] = src.replace(old, new)
    for f, s in byf.items():
        for k, b in (("a", open("/repo/" + f, "rb").read()), ("b", s.encode("latin1"))):
            p = os.path.join(w, k, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(b)
        r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=w, stdout=subprocess.PIPE).stdout
        diff += r.decode("latin1")
    open(d + "/patch.diff", "wb").write(diff.encode("latin1"))
    open(d + "/demo.sh", "w").write(PRE + demo + "\nexit $rc\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["rm", "-rf", w])

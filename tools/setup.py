#!/usr/bin/env python3
"""Build every variant once so that the checks find warm objects."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib
for v in vlib.VARIANTS:
    try:
        print(v, vlib.build(v))
    except FileNotFoundError as e:
        print(v, "skipped:", e)
import emu
emu.lib()

#!/usr/bin/env python3
"""Prebuilds what the checks use (they rebuild whatever changed by themselves)."""
import os, sys, glob
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
import bld
bad = 0
for src in sorted(glob.glob(V + "/harness/*.cc")):
    try:
        print(bld.harness(os.path.basename(src)[:-3], "asan"))
    except bld.BuildError as e:
        print(str(e)[-3000:])
        bad += 1
try:
    print(bld.prefix("asan"))
except bld.BuildError as e:
    print(str(e)[-3000:])
    bad += 1
sys.exit(1 if bad else 0)

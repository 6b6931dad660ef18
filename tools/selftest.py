#!/usr/bin/env python3-vt
"""setup: checks that the tools the framework needs are there (nothing to build ahead of time)"""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from engine import irparse, sym, prove, search
for t in ("gcc", "cvc5", "nc-config"):
    if not shutil.which(t):
        print("warning: %s not found" % t)
m = irparse.load_module("lib/libfrencutils/mpp_domain.c")
print("setup ok: z3 %s, %d functions parsed" % (z3.get_version_string(), len(m.raw)))

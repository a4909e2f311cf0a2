#!/usr/bin/env python3
"""Builds the harness and checks that TLC starts."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import hz, tlc
e = hz.build()
if e is not None:
    print(e)
    sys.exit(1)
rc, out = tlc.run("MC_C01", "SPECIFICATION Spec\nCONSTANTS\n MaxOps = 1\n MaxFiles = 9\n Alphabet <- Plain\n Size <- Z\n Emit = FALSE\n SimLen = 0\nCHECK_DEADLOCK FALSE\n", timeout=300)
sys.exit(0 if rc == 0 else 1)

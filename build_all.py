#!/usr/bin/env python3
"""Builds the harness binaries once, so that the checks only rebuild what changed."""
import os, sys
sys.dont_write_bytecode = True
d = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [d + "/lib", d + "/checks"]
import fw, p06
print(fw.build(["decy", "mon"]))
print(p06.build())

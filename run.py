#!/usr/bin/env python3
"""run.py <property id> quick|thorough"""
import importlib.util, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [ROOT + "/lib", ROOT + "/checks"]
import fw
prop, tier = sys.argv[1], sys.argv[2]
mod = importlib.import_module(prop.lower())
ctx = fw.Ctx(prop, tier)
try:
    mod.run(ctx)
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    print(f"HARNESS-ERROR: {prop} did not complete")
    sys.exit(2)
ctx.finish()

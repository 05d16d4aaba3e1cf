#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vk

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("checks." + prop.lower())
    ck = vk.Check(prop, tier, mod.LEVEL)
    try:
        mod.run(ck)
    except vk.Violation as v:
        ck.violation(v.what, v.artifact)
    sys.exit(ck.finish())

main()

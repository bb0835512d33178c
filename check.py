#!/usr/bin/env python3
"""check.py <property id> | setup | --replay FILE"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib


def main():
    if sys.argv[1] == "setup":
        print("harness %.0f s" % vlib.build_harness())
        print("cli %.0f s" % vlib.build_cli())
        return 0
    pid = sys.argv[1]
    try:
        return importlib.import_module(pid.lower()).run()
    except vlib.ToolError as x:
        print("CHECK ERROR: %s" % x)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())

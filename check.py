#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree (see DESIGN.md)."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def main():
    prop = sys.argv[1]
    c = lib.Ctx(prop)
    try:
        rc = importlib.import_module("props." + prop).run(c)
    except lib.ToolError as e:
        print(f"TOOL-ERROR {prop}: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


main()

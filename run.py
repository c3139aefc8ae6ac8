#!/usr/bin/env python3
"""python3 run.py <property>: decides one property on the current tree of /repo."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
from core import Check, ToolError

MODULES = ["p_hs", "p_session", "p_record", "p_io", "p_codec", "p_crypto", "p_curve", "p_fresh", "p_leak", "p_upkeep", "p_iso", "p_wait", "p_offer", "p_effects"]
# the others are model checking
EXPLORATION = {"C18", "C20", "C21", "C22", "C23", "C24"}


def main():
    prop = sys.argv[1]
    if prop == "setup":
        print("ready: every check builds the harness itself")
        return 0
    for m in MODULES:
        mod = importlib.import_module(m)
        if prop in mod.CHECKS:
            chk = Check(prop, "exploration" if prop in EXPLORATION else "model_checking")
            try:
                mod.CHECKS[prop](chk)
            except ToolError as e:
                if not chk.violations:
                    print("ERROR: %s" % e)
                    return 2
                print("# also: %s" % e)
            except Exception:
                if not chk.violations:
                    traceback.print_exc()
                    return 2
                traceback.print_exc()
            return chk.finish()
    print("no check for", prop)
    return 2


if __name__ == "__main__":
    sys.exit(main())

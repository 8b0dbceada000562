#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def run():
    prop = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from gsa import framework
    mod = importlib.import_module("gsa.props." + prop.lower())
    return framework.main(prop, mod, tier)


if __name__ == "__main__":
    import threading
    out = []
    threading.stack_size(512 * 1024 * 1024)
    def go():
        try:
            out.append(run())
        except BaseException:
            import traceback
            traceback.print_exc()
            print("ANALYSIS-BROKEN internal error")
            out.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(out[0] if out else 2)

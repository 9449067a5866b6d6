#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: run one check. See DESIGN.md."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
if __name__ == "__main__":
    prop = sys.argv[1]
    if "--tier" in sys.argv:
        os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
    import vlib
    mod = importlib.import_module(prop.lower())
    sys.exit(vlib.main(prop, mod.check))

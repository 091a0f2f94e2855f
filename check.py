#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   run one property's check
   check.py --setup                             verify the tools"""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vf

def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        # Every check builds what it needs from /repo's current tree; only the
        # tools are verified here.
        import shutil
        missing = [x for x in ("java", "g++", "protoc") if not shutil.which(x)]
        missing += [j for j in vf.JAR.split(":") if not os.path.exists(j)]
        print("missing: %s" % missing if missing else "tools present")
        return 1 if missing else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rc = 0
    for pid in args:
        mod = importlib.import_module(pid)
        rc = max(rc, vf.run_check(pid, mod.run, tier, seed, getattr(mod, "LEVEL", "model_checking")))
    return rc

sys.exit(main())

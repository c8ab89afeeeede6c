#!/usr/bin/env python3
"""check.py PROPERTY   decide one property (tier from VERIF_TIER, seed from VERIF_SEED)
   check.py --build    build only
   check.py --all      every property, one line each"""
import os, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
import checks


def main():
    args = sys.argv[1:]
    if args == ["--build"]:
        try:
            print("built in %.1fs" % vf.build())
            return 0
        except vf.ToolError as e:
            print("ERROR:", e)
            return 2
    if args and args[0] == "--all":
        worst = 0
        for p in checks.CHECKS:
            r = os.spawnlp(os.P_WAIT, sys.executable, sys.executable, __file__, p)
            worst = max(worst, r)
        return worst
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="tombi-verif-")
    os.chmod(scratch, 0o755)
    try:
        vf.build()
        t1 = time.time()
        return checks.CHECKS[prop](vf.__dict__, prop, tier, seed, scratch, t1)
    except vf.ToolError as e:
        print("ERROR (no verdict):", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]"""
import sys, os, argparse, importlib, time, json, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "kse"), os.path.join(HERE, "props")]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    import prop, build
    R = prop.Runner(a.pid, a.pid, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        m = importlib.import_module(a.pid)
        m.run(R)
    except build.BuildError as e:
        print("%s: the analysed sources do not build with the harness; nothing decided\n%s" % (a.pid, str(e)[-1500:]))
        R.extra_notes.append("build failed: " + str(e)[-400:])
        R.obligation("build", "harness builds against the current tree", False)
    except Exception:
        traceback.print_exc()
        R.extra_notes.append("internal error: " + traceback.format_exc()[-600:])
        R.obligation("internal", "machinery completed", False)
    return R.finish()
sys.exit(main())

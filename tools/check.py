#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property on /repo's working tree."""
import importlib, os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = vt.Ctx(prop, tier, seed)
    mod = importlib.import_module("props." + prop.lower())
    try:
        mod.run(ctx)
        rc = ctx.finish()
    except vt.Trouble as t:
        # a violation shown by the real code stands even if a later step failed
        if ctx.violations:
            rc = ctx.finish()
        else:
            print("ERROR in the check of %s: %s" % (prop, t), file=sys.stderr)
            rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    shutil.rmtree(ctx.dir, ignore_errors=True)
    if rc == 0:
        print("%s: held on everything explored (%d model states, %d trace lines)" % (prop, ctx.states, ctx.lines))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()

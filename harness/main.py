import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    ctx = core.Ctx(prop, tier)
    os.chdir(ctx.scratch)
    try:
        core.load_pymars()
        mod = importlib.import_module("check_" + prop.lower())
        mod.run(ctx)
        rc = ctx.finish()
    except core.MachineryError as e:
        print(f"ERROR in the machinery of {prop}: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    os.chdir("/")
    ctx._cleanup()
    sys.stdout.flush()
    sys.exit(rc)


main()

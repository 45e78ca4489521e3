#!/usr/bin/env python3
"""check.py <property>: decide one property of the tree in /repo.  VERIF_SEED, VERIF_TIER from the environment."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core  # noqa: E402


def main():
    prop = sys.argv[1]
    import registry
    level, fn = registry.CHECKS[prop]
    ctx = core.Ctx(prop, level)
    try:
        fn(ctx)
    except core.ToolError as e:
        if not ctx.violations:
            print("TOOL ERROR: %s" % e)
            return 2
    except Exception:
        if not ctx.violations:
            traceback.print_exc()
            return 2
        traceback.print_exc()
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())

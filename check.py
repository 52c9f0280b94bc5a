#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: exit 0 if it held on everything explored,
1 with VIOLATION lines otherwise."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import build, core  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = 1
    ctx = core.Ctx(prop, tier, seed)
    mod = importlib.import_module('checks.' + prop.lower())
    try:
        mod.run(ctx)
    except build.BuildError as e:
        # Nothing was observed, so nothing can be said to be violated
        print('cannot build /repo:\n%s' % e, file=sys.stderr)
        ctx.assumptions.append('the build failed: nothing was explored')
        ctx.finish()
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(1 if ctx.finish() else 2)
    sys.exit(ctx.finish())


if __name__ == '__main__':
    main()

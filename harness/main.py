"""entry of every check:  main.py <property> [--tier quick|thorough]"""
import argparse
import importlib
import logging
import os
import sys
import traceback

import common


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    logging.disable(logging.CRITICAL)
    ctx = common.Ctx(a.pid, a.tier, a.seed)
    os.chdir(ctx.scratch)
    try:
        mod = importlib.import_module('check_' + a.pid.lower())
        try:
            mod.run(ctx)
        except Exception:
            # the check could not go on because a case could not be observed: that comes first
            if not common.CRASHES:
                raise
            traceback.print_exc()
        ctx.observed()
        rc = ctx.finish(assumptions=getattr(mod, 'ASSUMPTIONS', ()))
    except common.MachineryError as e:
        print(f'ERROR in the check of {a.pid}: {e}')
        rc = 2
    except Exception:
        traceback.print_exc()
        print(f'ERROR in the check of {a.pid}')
        rc = 2
    if rc == 2 and ctx.violations:
        ctx.finish()
        rc = 1
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    import cfdtools

    expect = os.path.realpath(common.REPO)
    if not os.path.realpath(cfdtools.__file__).startswith(expect + os.sep):
        print('cfdtools is imported from', cfdtools.__file__, 'and not from', expect)
        sys.exit(2)
    sys.exit(main())

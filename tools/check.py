#!/usr/bin/env python3
"""check.py ID: decides one property on the code in /repo (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import engine, build


def main():
    os.umask(0o022)
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = None
    from vf.props import REGISTRY
    fn = REGISTRY[pid]
    c = engine.Check(pid, tier, seed)
    try:
        fn(c)
        sys.stdout.flush()
        code = c.finish()
    except (engine.CheckError, build.BuildError) as e:
        # what was found before the error stands
        if c.violations:
            print(str(e)[-2000:], file=sys.stderr)
            code = c.finish()
        else:
            print('ERROR: ' + str(e), file=sys.stderr)
            code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        c.scratch.close()
    sys.exit(code)


main()

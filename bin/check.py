#!/usr/bin/env python3
"""check.py ID: decides one property on the current tree. See DESIGN.md."""
import os
import sys
import traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'gen'))
sys.dont_write_bytecode = True
import harness
import checks


def main():
    prop = sys.argv[1]
    c = harness.Check(prop)
    try:
        getattr(checks, prop)(c)
    except harness.Broken as e:
        print('BROKEN %s: %s' % (prop, e))
        if c.violations:
            # what was observed before still counts
            return c.finish()
        if not os.environ.get('VERIF_KEEP'):
            import shutil
            shutil.rmtree(c.dir, ignore_errors=True)
        return 2
    return c.finish()


try:
    sys.exit(main())
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.exit(2)

#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decides one property."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if '--tier' in sys.argv:
    os.environ['VERIF_TIER'] = sys.argv[sys.argv.index('--tier') + 1]
sys.dont_write_bytecode = True
from vlib import core   # noqa: E402


def main():
    prop = sys.argv[1]
    mod = importlib.import_module('checks.' + prop.lower())
    ck = core.Check(prop, level=getattr(mod, 'LEVEL', 'exploration'), rule=mod.RULE)
    try:
        mod.check(ck)
    except core.BuildFailed as e:
        # The tree builds for the host (build.sh), but what this property is about cannot be built.
        ck.violation(core.Violation('cannot build: ' + str(e)[-1500:], {}, key='build'))
    finally:
        core.drop_scratch()
    return ck.finish(getattr(mod, 'MIN_EVALS', 1))


if __name__ == '__main__':
    sys.exit(main())

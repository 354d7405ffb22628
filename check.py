#!/usr/bin/env -S python3 -B
"""check.py PROPERTY [quick|thorough]   (seed: VERIF_SEED)
Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line:
it did not. Exit 2: no answer (the tree does not build, ...)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import checks
from vlib import Check, BuildError, Inconclusive, Stop

FAULT = {'P11', 'P12'}


def main():
    pid = sys.argv[1]
    if pid == '--selftest':   # everything needed is there
        import shutil
        missing = [t for t in ('g++', 'gcc', 'ar') if not shutil.which(t)]
        print('missing: %s' % missing if missing else 'ready')
        return 1 if missing else 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ck = Check(pid, tier, seed, 'fault_enumeration' if pid in FAULT else 'exploration', checks.RULES.get(pid, checks.RT_RULE))
    ck.assumptions = checks.ASSUME.get(pid, []) + ['only the executions of this run were judged', 'gcc 13 on x86-64 Linux']
    try:
        getattr(checks, pid)(ck)
    except Stop:
        pass
    except (BuildError, Inconclusive) as e:
        print('INCONCLUSIVE property=%s %s' % (pid, e))
        if not ck.violations:
            return 2
    except Exception:
        traceback.print_exc()
        if not ck.violations:
            return 2
    rc = ck.finish()
    ck.cleanup()
    return rc


if __name__ == '__main__':
    sys.exit(main())

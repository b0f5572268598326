#!/usr/bin/env python3
"""python3 check.py <property id> [--tier quick|thorough]"""
import importlib
import os
import signal
import sys
import warnings

warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(5000)
sys.dont_write_bytecode = True
from sa import core  # noqa
from sa.core import finish, OutOfTime  # noqa


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    from sa.checks import REGISTRY
    mod, fn = REGISTRY[prop]
    f = getattr(importlib.import_module('sa.checks.' + mod), fn)
    def late(*_):
        raise OutOfTime()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(780)
    try:
        rep, expl, min_ok = f(tier)
    except Exception:
        import traceback
        traceback.print_exc()
        print('NO ANSWER: internal error')
        return 3
    except OutOfTime:
        rep, expl, min_ok = core.CURRENT, 'stopped at the time limit', 1
        rep.extra['stopped_at_time_limit'] = True
    signal.alarm(0)
    return finish(rep, tier, expl, min_ok)


if __name__ == '__main__':
    sys.exit(main())

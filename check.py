#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property of the code in /repo
check.py replay <file>                 rerun the scenario of a reported violation"""
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import core                # noqa: E402
from vf.groups import GROUPS       # noqa: E402


def replay(path):
    with open(path) as f:
        v = json.load(f)
    run = core.Run(v['property'], 'quick', 1)
    traces = run.drive(v['driver'], [v['scenario']])
    verdict = run.judge(v['spec'], traces)[0]
    for e in traces[0]['ev'][:verdict['at']]:
        print(core.short(e, 400))
    print(verdict)
    return 0 if verdict['ok'] else 1


def main():
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    run = core.Run(prop, tier, seed)
    try:
        GROUPS[prop](run)
        return run.finish()
    except core.Broken as e:
        print('BROKEN %s: %s' % (prop, e))
        return 1 if run.violations and run.finish() else 2
    except Exception:
        traceback.print_exc()
        return 1 if run.violations and run.finish() else 2


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa import report, load  # noqa: E402


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in argv[2:]:
        if a in ('--thorough', 'thorough'):
            tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rep = report.Report(prop)
    try:
        mod = importlib.import_module('sa.rules.%s' % prop.lower())
        prog = load.Program(os.environ.get('AVB_REPO', '/repo'))
        mod.check(prog, rep, tier)
    except load.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception as e:
        traceback.print_exc()
        if not rep.counts:
            print("ANALYSIS-BROKEN property=%s internal error" % prop)
            return 2
        # code outside what the analysis models: what was decided so far stands
        rep.unclear('analysis', 'stopped at code it does not model: %s: %s' % (type(e).__name__, e))
    return report.finish(rep, tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv))

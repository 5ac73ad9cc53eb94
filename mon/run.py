"""check.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--only scenario]"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(3000)


def run():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    from mon import core
    from mon import env  # noqa
    module = importlib.import_module('mon.props.%s' % a.pid.lower())
    return core.main(a.pid, module, tier, seed, a.replay, a.only)


if __name__ == '__main__':
    sys.exit(run())

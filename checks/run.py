#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--n N] | --setup | --replay FILE"""
import os, sys, importlib, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'lib')]
import runner, build


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--n', type=int)
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    mod = importlib.import_module('c' + a.id[1:])
    try:
        return runner.main(mod.check, a.tier, a.seed, a.n, a.jobs)
    except build.BuildError as e:
        print('build failed: ' + str(e)[:4000])
        return 3


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--repo DIR] [-v] [--only TEXT]"""
import argparse
import importlib
import os
import sys
import warnings

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
warnings.simplefilter('ignore', SyntaxWarning)

from sa.oblig import Checker                              # noqa: E402
from sa.interp import AnalysisBroken                      # noqa: E402
from sa.rules.share import shared                         # noqa: E402


def known_findings(pid):
    """lines 'known: property=<id> <construct :: obligation> | <what fails>'"""
    d = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            pre = 'known: property=%s ' % pid
            if line.startswith(pre):
                k, _, w = line[len(pre):].partition(' | ')
                d[k.strip()] = w.strip()
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    C = Checker(a.pid, a.repo, a.tier, seed, a.only, a.v)
    try:
        importlib.import_module('sa.rules.' + a.pid.lower()).rules(C)
        shared(C)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (a.pid, e))
        return 2
    return C.finish(ROOT, known_findings(a.pid))


if __name__ == '__main__':
    sys.exit(main())

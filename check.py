#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--root DIR] | check.py all"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)

from sa import core, rules  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?', default='all')
    p.add_argument('--selftest', action='store_true', help='load the analyser and its rules, and parse the sources')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--root', default='/repo')
    p.add_argument('--no-evidence', action='store_true')
    a = p.parse_args()
    if a.selftest:
        from sa.model import Repo
        r = Repo(a.root)
        print('%d rules, %d modules' % (sum(len(x) for x in core.RULES.values()), len(r.modules)))
        return 0
    props = sorted(core.RULES) if a.prop == 'all' else a.prop.split(',')
    worst = 0
    for q in props:
        code, _ = core.run(q, a.tier, a.root, evidence=not a.no_evidence)
        worst = max(worst, code) if worst != 1 else 1
    return worst


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--budget S] [--runs N] | --replay FILE

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. 2: the check itself failed."""
import argparse
import json
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'sim'))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    import driver
    if a.replay:
        module = json.load(open(a.replay))['module']
    else:
        module = a.property.lower()
    sys.exit(driver.campaign(module, a.tier, a.seed, a.replay, a.budget, a.runs))

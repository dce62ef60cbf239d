#!/usr/bin/env python3
"""Decide one property of /repo from its source.  Usage: check.py --property C07 [--tier quick|thorough]

Exit 0: every obligation decided and discharged (or a listed known finding).  Exit 1 with a VIOLATION line: a construct breaks
the property.  Exit 2: the analysis could not reach a verdict (an anchor vanished, a source file does not parse).
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from vstatic.core import Ctx, Report, load_known, VERIF   # noqa: E402
from vstatic.loader import AnalysisBroken                  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--list', action='store_true', help='print keys of all violations, known or not')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property
    try:
        ctx = Ctx()
        ctx.tier = a.tier
        rep = Report(prop)
        importlib.import_module('vstatic.rules.' + prop.lower()).run(ctx, rep)
        known, fixed = load_known(prop)
    except AnalysisBroken as ex:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, ex))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % prop)
        return 2
    new = {k: v for k, v in rep.violations.items() if k not in known}
    old = {k: v for k, v in rep.violations.items() if k in known}
    for k, v in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s (%s): %s' % (prop, v[1], v[2], known[k] or v[3]))
    if a.list:
        for k, v in sorted(new.items()):
            print('KEY %s -- %s %s' % (k, v[2], v[3]))
        for u in rep.undecided:
            print('UNDECIDED ' + u)
    ev = os.path.join('evidence', prop + '.json')
    replay = os.path.join('evidence', prop + '.violations.txt')
    expl = '; '.join('%s (%d obligations): %s' % (n, r['obligations'], r['text']) for n, r in rep.rules.items())
    data = {
        'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Source of /repo/falco parsed and analysed on this run. Rules applied: ' + expl,
            'obligations': rep.obligations,
            'discharged': rep.obligations - len(rep.violations),
            'rules': rep.rules,
            'analysed': dict(rep.counters, modules=len(ctx.repo.mods), functions_parsed=len(ctx.repo.funcs)),
            'samples': rep.samples[:40],
            'known_findings': sorted(old),
            'fixed_findings_now_checked': fixed,
            'undecided': rep.undecided[:60],
            'new_violations': [{'key': k, 'where': v[2], 'message': v[3]} for k, v in sorted(new.items())],
        },
        'assumptions': rep.assumptions,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, ev), 'w') as f:
            json.dump(data, f, indent=1, default=str)
    if new:
        with open(os.path.join(VERIF, replay), 'w') as f:
            for k, v in sorted(new.items()):
                f.write('%s\n    at %s\n    %s\n' % (k, v[2], v[3]))
        for k, v in sorted(new.items())[:25]:
            print('%s: [%s] %s' % (v[2], v[0], v[3]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    print('OK property=%s obligations=%d known=%d undecided=%d wall=%.1fs'
          % (prop, rep.obligations, len(old), len(rep.undecided), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())

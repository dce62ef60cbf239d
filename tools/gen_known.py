#!/usr/bin/env python3
"""Writes the `fixed:` lines of known_findings.txt from /repo's history.  `known:` lines are kept as they are."""
import os, subprocess
MAP = """C07 C18 C18 C07 C07 C07 C15 C07 C12 C12 C01 C01 C03 C03 C04 C12 C12 C07 C11 C11 C11 C04 C23 C23 C03 C12 C13 C07 C11 C11 C11 C11 C11 C11
C11 C12 C24 C12 C11 C11 C11 C02 C16 C16 C16 C16 C16 C16 C11 C11 C23 C02 C07 C16 C16 C16 C06 C05 C12 C12 C12 C24 C12 C24 C17 C11 C24 C24 C05
C02 C03 C02 C24 C08 C08 C08 C12""".split()
MORE = open(os.path.join(os.path.dirname(__file__), 'fixmap.txt')).read().split() if os.path.exists(os.path.join(os.path.dirname(__file__), 'fixmap.txt')) else []
MAP += MORE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '2d28daf..HEAD'], text=True).splitlines()
assert len(log) == len(MAP), (len(log), len(MAP))
p = os.path.join(V, 'known_findings.txt')
keep = [l for l in open(p).read().splitlines() if not l.startswith('fixed:')] if os.path.exists(p) else [
    '# known: property=<id> key=<rule|construct> -- what fails       (reported as KNOWN-FINDING, exit 0)',
    '# fixed: property=<id> <commit> <what failed>                   (repaired in /repo; suppresses nothing)']
out = keep + ['fixed: property=%s %s %s' % (m, l.split(' ', 1)[0], l.split(' ', 2)[2]) for m, l in zip(MAP, log)]
open(p, 'w').write('\n'.join(out) + '\n')

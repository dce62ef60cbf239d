"""Records the functions of the current tree (helpers that appear later are judged through their callers)."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from vstatic.loader import Repo  # noqa: E402
r = Repo('/repo')
fs = [f.qual for f in r.analysed() if not f.qual.startswith(('falco.mkl_fft.', 'falco.dftidefs.'))]
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vstatic', 'baseline.json')
b = json.load(open(p))
print(sorted(set(b['functions']) - set(fs)), sorted(set(fs) - set(b['functions'])))
b['functions'] = fs
json.dump(b, open(p, 'w'), indent=0)

"""Positive examples: rules with an expected count of zero are run on a package of violating snippets every time."""
import os

from .loader import Repo, AnalysisBroken
from .summary import Summaries

HERE = os.path.dirname(os.path.abspath(__file__))
_cache = {}


def posrepo():
    if 'r' not in _cache:
        r = Repo(os.path.join(HERE, 'positive'), packages=('posex',))
        _cache['r'] = (r, Summaries(r))
    return _cache['r']


def posfuncs(mod):
    r, s = posrepo()
    return [f for q, f in r.funcs.items() if q.startswith('posex.%s.' % mod)]


def expect(rep, prop, found, wanted):
    missing = set(wanted) - set(found)
    if missing:
        raise AnalysisBroken('positive examples of %s not matched: %s' % (prop, sorted(missing)))
    rep.counters['positive_examples_matched'] = rep.counters.get('positive_examples_matched', 0) + len(set(wanted))


def exact(rep, prop, mod, found):
    """Functions named bad_* must be reported, functions named good_* must not."""
    fs = {f.name for f in posfuncs(mod)}
    expect(rep, prop, found, {n for n in fs if n.startswith('bad_')})
    wrong = {n for n in found if n.startswith('good_')}
    if wrong:
        raise AnalysisBroken('negative examples of %s reported: %s' % (prop, sorted(wrong)))

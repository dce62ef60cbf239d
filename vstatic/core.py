"""Shared services of the rules: the parsed repository, summaries, report with floors, known findings and evidence."""
import json
import os

from .loader import Repo, AnalysisBroken
from .interp import Interp, Budget
from .summary import Summaries
from .terms import show

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROOT = '/repo'


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = {}
        self.obligations = 0
        self.discharged = 0
        self.counters = {}
        self.samples = []
        self.rules = {}
        self.assumptions = []
        self.undecided = []

    def rule(self, name, text):
        self.rules.setdefault(name, {'text': text, 'obligations': 0, 'violated': 0})

    def ok(self, rule, construct=None, n=1):
        self.obligations += n
        self.discharged += n
        self.rules.setdefault(rule, {'text': '', 'obligations': 0, 'violated': 0})['obligations'] += n
        if construct is not None and len([s for s in self.samples if s.startswith(rule + ' ')]) < 4:
            self.samples.append('%s %s: holds' % (rule, construct))

    def bad(self, rule, construct, where, msg):
        key = '%s|%s' % (rule, construct)
        r = self.rules.setdefault(rule, {'text': '', 'obligations': 0, 'violated': 0})
        self.obligations += 1
        r['obligations'] += 1
        if key not in self.violations:
            r['violated'] += 1
            self.violations[key] = (rule, construct, where, msg)

    def check(self, cond, rule, construct, where, msg):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, where, msg)
        return cond

    def undecided_at(self, rule, construct, why):
        """The construct left the fragment this rule decides: recorded in the evidence, never an alarm."""
        self.undecided.append('%s %s: %s' % (rule, construct, why))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def floor(self, name, minimum):
        v = self.counters.get(name, 0)
        if v < minimum:
            raise AnalysisBroken('%s: only %d analysed, at least %d expected' % (name, v, minimum))


class Ctx:
    def __init__(self, root=None, repo=None):
        self.repo = repo or Repo(root or os.environ.get('VERIF_REPO', ROOT))
        self.S = Summaries(self.repo, inline=self.is_new)
        with open(os.path.join(HERE, 'baseline.json')) as f:
            b = json.load(f)
        self.baseline = b['functions']
        present = [q for q in self.baseline if q in self.repo.funcs]
        self.missing = [q for q in self.baseline if q not in self.repo.funcs]
        if len(present) < 0.8 * len(self.baseline):
            raise AnalysisBroken('only %d of %d known functions present' % (len(present), len(self.baseline)))
        self.memo = {}

    def funcs(self):
        """Functions of today's tree that still exist: the judged set.  Helpers added later are judged through their callers."""
        return [self.repo.funcs[q] for q in self.baseline if q in self.repo.funcs]

    def judged(self):
        """Every hand-written function except helpers added later."""
        return [f for f in self.repo.analysed() if not self.is_new(f.qual)]

    def known(self, qual):
        return qual in self._bset()

    def _bset(self):
        s = getattr(self, '_bs', None)
        if s is None:
            s = self._bs = set(self.baseline)
        return s

    def is_new(self, qual):
        """A repository function that today's tree does not have (extracted helper)."""
        return qual in self.repo.funcs and qual not in self._bset() and not qual.startswith('falco.proper')

    def func(self, qual):
        return self.repo.func(qual)

    def interp(self, inline=(), assume=None, **kw):
        """Interpreter that inlines the named functions (and every helper unknown to the baseline)."""
        inl = inline if callable(inline) else (lambda q, d, s=frozenset(inline): q in s)

        def policy(q, d):
            return 'inline' if (self.is_new(q) or inl(q, d)) else 'opaque'
        return Interp(self.repo, policy=policy, assume=assume, summaries=self.S, **kw)

    def run(self, qual, inline=(), assume=None, args=None, **kw):
        f = self.func(qual)
        ip = self.interp(inline, assume, **kw)
        return ip.run(f, args)

    def full(self, qual):
        """Function analysed with everything opaque except helpers unknown to the baseline (memoised)."""
        k = ('full', qual)
        if k not in self.memo:
            self.memo[k] = self.run(qual)
        return self.memo[k]


def load_known(prop):
    known, fixed = {}, []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.rstrip('\n')
                if not line or line.startswith('#'):
                    continue
                if line.startswith('known: property=%s ' % prop):
                    rest = line.split(' ', 2)[2]
                    if not rest.startswith('key='):
                        raise AnalysisBroken('malformed known finding: %s' % line)
                    key, _, text = rest[4:].partition(' -- ')
                    known[key] = text
                elif line.startswith('fixed: property=%s ' % prop):
                    fixed.append(line)
    return known, fixed

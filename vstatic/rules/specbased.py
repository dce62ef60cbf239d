"""Properties decided by comparing functions with reference definitions (vstatic/spec)."""
from .. import specs
from ..loader import AnalysisBroken


def positives(ctx, rep, prop, name, **kw):
    """Wrong variants (bad*__qual) must be told apart from the reference, rewritten ones (good*__qual) must not."""
    specs.load(ctx, 'pos_' + name)
    refs = specs.specs_of(ctx, name)
    pre = 'vspec.pos_%s.' % name
    n = 0
    for q, f in list(ctx.repo.funcs.items()):
        if not q.startswith(pre) or '<locals>' in q or f.name.startswith('_'):
            continue
        kind, _, qual = f.name.partition('__')
        qual = specs.qual_of(qual)
        ref = refs[qual]
        k = kw.get(qual, {})
        if k.get('orch'):
            got = [v.v for _, v in specs.orchestrate(ctx, f, ref, k.get('outs', ('return',)), k.get('inline', ()), k.get('assume'))[1]]
        else:
            got = [v.v if v is not None else None for _, v, _ in specs.compare_function(ctx, f, ref, **dict(k, refuses=False))]
        strs = {str(g) for g in got}
        if 'UNKNOWN' in strs and (kind.startswith('good') or 'DIFFERENT' not in strs) and (kind.startswith('bad') or 'DIFFERENT' not in strs):
            # the repository functions the example calls were rewritten in a way that leaves it undecided
            rep.counters['positive_examples_undecided'] = rep.counters.get('positive_examples_undecided', 0) + 1
            continue
        if kind.startswith('bad') and 'DIFFERENT' not in got:
            raise AnalysisBroken('positive example %s of %s not matched: %s' % (f.name, prop, sorted({str(g) for g in got})))
        if kind.startswith('good') and set(got) != {'EQUAL'}:
            raise AnalysisBroken('negative example %s of %s not matched: %s' % (f.name, prop, sorted({str(g) for g in got})))
        n += 1
    rep.counters['positive_examples_matched'] = rep.counters.get('positive_examples_matched', 0) + n
    if n < 1:
        raise AnalysisBroken('positive examples of %s missing' % prop)


def run_refs(ctx, rep, name, rule, minimum, what='', **kw):
    refs = specs.specs_of(ctx, name)
    for qual, spec in refs.items():
        specs.decide(ctx, rep, rule, qual, spec, what=what, **kw.get(qual, {}))
    rep.floor('reference_comparisons', minimum)


BORROWABLE = ('c13', 'c14', 'c15', 'c16', 'c17', 'c20', 'c21', 'c22', 'c23', 'c25')


def borrow(ctx, rep, rule, pick, what=''):
    """Compare the functions that pick(qual, reference) chooses among all reference definitions."""
    import importlib
    n, done = 0, set()
    for name in BORROWABLE:
        kw = getattr(importlib.import_module('vstatic.rules.' + name), 'KW', {})
        for qual, spec in specs.specs_of(ctx, name).items():
            if qual in done or not pick(qual, spec):
                continue
            done.add(qual)
            n += 1
            specs.decide(ctx, rep, rule, qual, spec, what=what, **kw.get(qual, {}))
    rep.count('borrowed_references', n)
    return done

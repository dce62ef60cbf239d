"""C09: documented argument requirements are enforced before any work is done."""
from .. import specs
from . import c10, c20
from ..interp import Budget
from ..loader import AnalysisBroken
from ..norm import compare, DIFFERENT, EQUAL, UNKNOWN, pretty
from ..specs import show_env
from ..terms import FALSE, and_, const, mk, not_, or_, walk

R1 = 'refuses-what-it-documents'


def checks(res):
    for c in res.ip.calls:
        if c.qual and c.qual.startswith('falco.check.') and c.qual.count('.') == 2 and (c.bound or c.args) and sum(not res.helper(q) for q in c.stack) <= 1 and not any(q.startswith('falco.check.') for q in c.stack):
            given = c.state or c.bound or {}
            v = given.get('var')
            yield c, v if v is not None else c.args[0]


def handled(c):
    return any(x.op == 'excp' for x in walk(c))


def total(res):
    """When the function refuses its arguments: its own raises and the argument checks it calls, as one truth value."""
    alts = [and_(*[c if pol else not_(c) for c, pol in pc]) for pc in specs.refused(res, False) if not any(handled(c) for c, pol in pc)]
    for c, v in checks(res):
        t = mk('call', 'accepted', (const(c.qual), v), ())
        alts.append(and_(*([x if pol else not_(x) for x, pol in c.pc or ()] + [not_(t)])))
    return or_(*alts) if alts else FALSE


def verdict(res):
    return mk('phi', total(res), const('refused'), const('served'))


def sides(ctx, f, spec):
    args = specs.actuals(f)
    rs = []
    for g in (f, spec):
        r = specs.run(ctx, g, {k: v for k, v in args.items() if k in g.args + g.kwonly + [g.vararg, g.kwarg]}, (), None, False)
        r.code, r.own = f.qual, {f.qual}
        rs.append(r)
    return rs


def guards(ctx, rep, rule, refs, quals=None):
    for q, spec in refs.items():
        if quals is not None and q not in quals:
            continue
        f = ctx.repo.funcs.get(q)
        if f is None:
            rep.undecided_at(rule, q, 'the function no longer exists under this name')
            continue
        try:
            rc, rs = sides(ctx, f, spec)
        except Budget as ex:
            rep.undecided_at(rule, q, str(ex))
            continue
        v = compare(verdict(rc), verdict(rs))
        if v.v == EQUAL:
            rep.ok(rule, q)
            rep.count('functions_refusing_as_documented')
        elif v.v == DIFFERENT:
            rep.bad(rule, q, f.where, '%s refuses its arguments when %s where %s is required%s' % (
                q, pretty(v.left)[:250], pretty(v.right)[:250], ' (when %s)' % show_env(v.env)[:250] if v.env else ''))
        else:
            rep.undecided_at(rule, q, v.why)


def all_guards(ctx, rep, rule):
    """Every place where the package refuses something: functions, options and the checks they call."""
    refs = specs.specs_of(ctx, 'c09')
    guards(ctx, rep, rule, refs)
    q = 'falco.dm.gen_surf_from_act'        # its refusals depend on what it computed
    specs.decide(ctx, rep, rule, q, specs.specs_of(ctx, 'c20')[q], **c20.KW[q])
    c10.helpers(ctx, rep)
    rep.floor('functions_refusing_as_documented', 75)
    return refs


def positives(ctx, rep, refs):
    specs.load(ctx, 'pos_c09')
    n = 0
    for q, f in list(ctx.repo.funcs.items()):
        if not q.startswith('vspec.pos_c09.') or f.name.startswith('_') or '<locals>' in q:
            continue
        kind, _, qual = f.name.partition('__')
        ref = refs[specs.qual_of(qual)]
        rc, rs = sides(ctx, f, ref)
        v = compare(verdict(rc), verdict(rs))
        if v.v != (DIFFERENT if kind.startswith('bad') else EQUAL):
            raise AnalysisBroken('example %s of C09 not matched: %s' % (f.name, v.v))
        n += 1
    rep.count('positive_examples_matched', n)


def run(ctx, rep):
    rep.rule(R1, 'the condition under which the function raises, including the argument checks it calls and the values they are given, equals the documented one')
    positives(ctx, rep, all_guards(ctx, rep, R1))

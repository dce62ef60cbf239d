"""Comparison of a function of the repository with its reference definition in vstatic/spec.

A reference module is analysed by the same interpreter as the repository (its `falco.*` names resolve to today's repository);
the two value graphs are brought to canonical form and compared.  Nothing is executed.
"""
import ast
import os

from .interp import Interp, Budget
from .loader import Mod, AnalysisBroken
from .norm import Norm, compare, EQUAL, DIFFERENT, UNKNOWN, pretty, show_env
from .terms import mk, phi, subst, const, show, walk, NONE, FALSE, and_, or_, not_

HERE = os.path.dirname(os.path.abspath(__file__))


def load(ctx, name):
    """Add vstatic/spec/<name>.py to the parsed program as module vspec.<name>."""
    mn = 'vspec.' + name
    if mn not in ctx.repo.mods:
        path = os.path.join(HERE, 'spec', name + '.py')
        m = Mod(mn, path, 'vstatic/spec/%s.py' % name, False)
        ctx.repo.mods[mn] = m
        ctx.repo._collect(m)
        ctx.repo._stars(m, set())
    return ctx.repo.mods[mn]


def qual_of(name):
    """falco__dm__f -> falco.dm.f;  falco__diff_dm__DM____init__ -> falco.diff_dm.DM.__init__"""
    head, sep, tail = name.rpartition('____')
    if not sep:
        head, sep, tail = '', '', ''
    if tail.endswith('__') and len(tail) > 2:
        return head.replace('__', '.') + '.__' + tail
    # falco__mod___f -> falco.mod._f
    name = name.replace('___', '._') if '___' in name and '____' not in name else name
    return name.replace('__', '.')


def specs_of(ctx, name):
    load(ctx, name)
    out = {}
    pre = 'vspec.%s.' % name
    for q, f in ctx.repo.funcs.items():
        if q.startswith(pre) and '__' in f.name and not f.name.startswith('_') and f.cls is None and '<locals>' not in q:
            out[qual_of(f.name)] = f
    return out


def run(ctx, f, args=None, inline=(), assume=None, deep=False, orch=False):
    inl = set(inline)

    def policy(q, d):
        if ctx.is_new(q) or q.startswith('vspec.') or q in inl or q.startswith(f.qual + '.<locals>.'):
            return 'inline'
        if deep and d < 6 and q in ctx.repo.funcs:
            return 'inline'
        return 'opaque'
    ip = Interp(ctx.repo, policy=policy, assume=assume, summaries=ctx.S)
    ip.with_state = True
    ip.orch = orch
    r = ip.run(f, args)
    r.helper = lambda q: ctx.is_new(q) or q.startswith('vspec.') and q.split('.')[-1].startswith('_')
    return r


def actuals(code):
    names = code.args + code.kwonly + ([code.vararg] if code.vararg else []) + ([code.kwarg] if code.kwarg else [])
    return {n: mk('param', code.qual, n) for n in names}


def outputs(res, outs):
    """name -> value term at the normal exit.  outs: 'return', or 'mp.dm1.V' style paths."""
    d = {}
    if res.state is None:
        return None
    for o in outs:
        if o == 'return':
            d[o] = res.ip.val(res.ret, res.state)
        elif o == 'return()':
            d[o] = applied(res)
        else:
            parts = o.split('.')
            t = res.ret if parts[0] == 'return' else mk('param', res.func.qual if res.func.qual in res.own else res.code, parts[0])
            for p in parts[1:]:
                t = res.ip.get_attr_quiet(t, p, res.state)
            d[o] = res.ip.val(unnamed(res.ip, t), res.state)
    return d


def applied(res):
    """What the function that is returned gives for any arguments."""
    t = res.ip.val(res.ret, res.state)
    if t.op != 'clo':
        return t
    f, parent, _ = res.ip.closures[t]
    res.ip.frames.append(parent)
    try:
        v = res.ip.call(t, [mk('param', 'argument', str(i)) for i in range(len(f.args))], [], f.node, res.state)
    finally:
        res.ip.frames.pop()
    return res.ip.val(v, res.state)


def unnamed(ip, t):
    """An attribute that nobody gave a new object, whichever of the objects of its class it is."""
    if t.op == 'phi':
        return phi(t.a[0], unnamed(ip, t.a[1]), unnamed(ip, t.a[2]))
    if t.op == 'attr' and t.a[0].op == 'obj':
        return mk('attr', mk('snap', t.a[0].a[0], ()), t.a[1])
    return t


def outputs_of(res, outs, qual):
    res.code, res.own = qual, {qual}
    return outputs(res, outs)


def children_of(t):
    from .norm import deepkids
    return deepkids(t)


SCALAR_CHECKS = {'real_scalar', 'real_positive_scalar', 'real_nonnegative_scalar', 'positive_scalar_integer', 'nonnegative_scalar_integer',
                 'scalar_integer'}


def scalar_args(res):
    """Terms that an unconditional argument check of the function establishes to be single numbers."""
    out = set()
    for c in res.ip.calls:
        if c.qual and c.qual.startswith('falco.check.') and c.qual.split('.')[-1] in SCALAR_CHECKS and c.bound and not c.loops:
            v = c.bound.get('var')
            if v is None and c.bound:
                v = next(iter(c.bound.values()))
            if v is not None and v.op == 'param':
                out.add(v)
    return out


def refused(res, checks=True):
    """Path conditions under which the function raises instead of returning."""
    out = []
    for v, s, func, pc, frames, st in res.ip.raises:
        if pc and sum(not res.helper(q) for q in frames) <= 2 and not caught(func, s) and (checks or not any(q.startswith('falco.check.') for q in frames)):
            out.append(tuple(pc))
    # not-A and then B raises, where A raises as well: B alone raises
    known = set(out)
    return [tuple(x for k, x in enumerate(pc) if k == len(pc) - 1 or pc[:k] + ((x[0], not x[1]),) not in known) for pc in out]


def refusal(res):
    """When the function raises instead of returning, as one truth value."""
    return or_(*[and_(*[c if pol else not_(c) for c, pol in pc]) for pc in refused(res)]) if refused(res) else FALSE


def checked(res):
    """The argument checks called: what these refuse is not part of the comparison."""
    return {(c.qual, tuple(sorted((k, v.n) for k, v in (c.bound or {}).items()))) for c in res.ip.calls if c.qual and c.qual.startswith('falco.check.')}


def caught(func, stmt):
    for n in ast.walk(func.node):
        if isinstance(n, ast.Try) and n.handlers and any(x is stmt for b in n.body for x in ast.walk(b)):
            return True
    return False


def compare_function(ctx, code, spec, outs=('return',), inline=(), assume=None, facts=None, refuses=True):
    """[(output, Verdict)] of the two functions on the same symbolic arguments."""
    args = actuals(code)
    missing = [a for a in spec.args if a not in args]
    if missing:
        return [('signature', None, 'parameters %s of the reference are not parameters of the function' % missing)]
    best = {}
    for deep in (False, True):
        asm = None
        if assume:
            asm = assume(args)
        try:
            rc = run(ctx, code, args, inline, asm, deep)
            rs = run(ctx, spec, {k: v for k, v in args.items() if k in spec.args + spec.kwonly + [spec.vararg, spec.kwarg]}, inline, asm, deep)
        except Budget:
            break
        for r in (rc, rs):
            r.code = code.qual
            r.own = {code.qual}
        dc, ds = outputs(rc, outs), outputs(rs, outs)
        if dc is None or ds is None:
            return [('return', None, 'no normal exit')]
        scalars = scalar_args(rc) | scalar_args(rs)
        vacuous = refused(rc) + refused(rs)
        todo = False
        if refuses and refused(rs) and checked(rc) == checked(rs) and ('refuses' not in best or best['refuses'].v != EQUAL):
            # the reference states what is refused
            v = compare(refusal(rc), refusal(rs), facts, scalars=scalars)
            if 'refuses' not in best or v.v == EQUAL:
                best['refuses'] = v
            todo = v.v != EQUAL
        for o in outs:
            if o in best and best[o].v == EQUAL:
                continue
            v = compare(dc[o], ds[o], facts, scalars=scalars, vacuous=vacuous)
            if o not in best or v.v == EQUAL:
                best[o] = v
            elif v.v == UNKNOWN:
                pass            # inlining everything left the decidable fragment: the first verdict stands
            if best[o].v != EQUAL:
                todo = True
        if not todo:
            break
    return [(o, best[o], None) for o in ('refuses',) + tuple(outs) if o in best]


def decide(ctx, rep, rule, qual, spec, outs=('return',), inline=(), assume=None, facts=None, what='', orch=False, refuses=True):
    code = ctx.repo.funcs.get(qual)
    if code is not None and orch:
        return decide_orch(ctx, rep, rule, qual, code, spec, outs, inline, what, assume)
    if code is None:
        rep.undecided_at(rule, qual, 'the function no longer exists under this name')
        rep.count('reference_functions_missing')
        return
    rep.count('reference_comparisons')
    for o, v, err in compare_function(ctx, code, spec, outs, inline, assume, facts, refuses):
        name = qual if o == 'return' else '%s -> %s' % (qual, o)
        if v is None:
            rep.undecided_at(rule, name, err)
        elif v.v == EQUAL:
            rep.ok(rule, name)
            rep.count('values_equal_to_reference')
        elif v.v == UNKNOWN and o == 'refuses':
            rep.count('refusals_not_compared')
        elif v.v == UNKNOWN:
            rep.undecided_at(rule, name, v.why)
            rep.count('values_undecided')
        else:
            rep.bad(rule, name, code.where, '%s%s computes %s where %s is required%s' % (
                name, what and ' (%s)' % what, pretty(v.left)[:300], pretty(v.right)[:300],
                ' (when %s)' % show_env(v.env) if v.env else ''))


def decide_orch(ctx, rep, rule, qual, code, spec, outs, inline, what, assume=None):
    missing = [a for a in spec.args if a not in code.args]
    if missing:
        rep.undecided_at(rule, qual, 'parameters %s of the reference are not parameters of the function' % missing)
        return
    try:
        p, verdicts = orchestrate(ctx, code, spec, outs, inline, assume)
    except Budget:
        rep.undecided_at(rule, qual, 'too large to analyse')
        return
    rep.count('reference_comparisons')
    rep.count('calls_matched_with_reference', p.counts['events'])
    seen = set()
    for lab, v in verdicts:
        name = '%s -> %s' % (qual, lab)
        if v.v == EQUAL:
            rep.ok(rule, name)
            rep.count('values_equal_to_reference')
        elif v.v == UNKNOWN:
            rep.undecided_at(rule, name, v.why)
            rep.count('values_undecided')
        else:
            k = v.why if v.why.startswith('call of') else lab
            if k in seen:
                continue
            seen.add(k)
            name = '%s -> %s' % (qual, k)
            rep.bad(rule, name, code.where, '%s%s has %s where %s is required%s' % (
                name, what and ' (%s)' % what, pretty(v.left)[:300] if v.left is not None else 'a step', pretty(v.right)[:300] if v.right is not None else 'another',
                ' (when %s)' % show_env(v.env)[:300] if v.env else ''))


def orchestrate(ctx, code, spec, outs=('return',), inline=(), assume=None):
    """(Pair, [(cell or output, Verdict)]) for procedures that coordinate others."""
    from . import orch
    args = actuals(code)
    sides = []
    for f in (code, spec):
        r = run(ctx, f, {k: v for k, v in args.items() if k in f.args + f.kwonly + [f.vararg, f.kwarg]}, inline, assume and assume(args), False, True)
        r.code = code.qual
        r.own = {code.qual}
        sides.append((r, outputs(r, outs)))
    (rc, dc), (rs, ds) = sides
    p = orch.Pair(orch.Side(rc, dc), orch.Side(rs, ds), scalars=scalar_args(rc) | scalar_args(rs), vacuous=refused(rc) + refused(rs))
    return p, p.run()

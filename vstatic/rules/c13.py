"""C13: every mirror command respects the actuator constraints."""
from .. import specs
from ..loader import AnalysisBroken
from ..norm import Norm, pretty, leaves
from ..terms import mk, walk
from . import specbased

R = 'equals-reference'
A = 'adopted-command-constrained'
U = 'used-command-constrained'
E = 'falco.dm.enforce_constraints'
KW = {
    'falco.dm.enforce_constraints': {'outs': ('return', 'dm.V', 'dm.pinned', 'dm.Vpinned', 'dm.dead_map')},
    'falco.setup.falco_configure_dm1_and_dm2': {'outs': ('mp.dm1.dead_map', 'mp.dm2.dead_map')},
    'falco.setup.set_optional_variables': {'outs': tuple('mp.dm%d.%s' % (k, a) for k in (1, 2) for a in ('pinned', 'Vpinned', 'tied', 'Vmin', 'Vmax', 'biasMap', 'dead')),
                                           'inline': ()},
}
# functions that turn a command into a surface, and the mirror they are given
USERS = {'falco.dm.gen_surf_from_act': 'dm'}


def holds(c, env):
    """Truth of a condition under the valuation of its leaves, None when open."""
    if c.op == 'const':
        return bool(c.py)
    if c.op == 'not':
        r = holds(c.a[0], env)
        return None if r is None else not r
    if c.op == 'and':
        rs = [holds(x, env) for x in c.a]
        return False if False in rs else None if None in rs else True
    if c.op == 'phi':
        r = holds(c.a[0], env)
        return holds(c.a[1] if r else c.a[2], env) if r is not None else None
    return env.get(c)


def paths(t, force, env=None, budget=None):
    """Values t can take, over all valuations of its branch conditions in which the conditions that `force` accepts hold."""
    env = env or {}
    budget = budget if budget is not None else [4000]
    budget[0] -= 1
    if t.op != 'phi' or budget[0] < 0:
        yield t
        return
    r = holds(t.a[0], env)
    if r is not None:
        yield from paths(t.a[1] if r else t.a[2], force, env, budget)
        return
    leaf = next(x for x in leaves(t.a[0]) if x not in env)
    for v in ((True,) if force(leaf) else (True, False)):
        yield from paths(t, force, dict(env, **{}) | {leaf: v}, budget)


def constrained(t):
    return t.op == 'eff' and t.a[0] == E and t.a[1] == '.V'


def in_use(c, k):
    """The condition says that mirror k is in the list of mirrors in use."""
    return any(x.op == 'const' and x.py == k for x in walk(c)) and any(x.op == 'attr' and x.a[1] == 'dm_ind' or x.op == 'eff' and x.a[1].endswith('.dm_ind')
                                                                       or x.op == 'mu' and x.a[4] == 'dm_ind' for x in walk(c))


def adopted(ctx, code, k, ref=None):
    """Values of mirror k's command at the end of an iteration that were not constrained although the mirror is in use."""
    args = specs.actuals(code)
    res = specs.run(ctx, code, args, (), None, False, True)
    cell = None
    mp = args['mp']
    dm = mk('attr', mp, 'dm%d' % k)
    for m, (init, body, bound, iv) in res.ip.mu_val.items():
        kind, key = res.ip.mu_key[m]
        if m.a[0] == 0 and kind == 'heap' and key == (dm, 'V'):
            cell = m, body
        elif m.a[0] == 0 and kind == 'heap' and key == (mp, 'dm%d' % k) and any(v is not m for v in paths(Norm()(body), lambda c: False)):
            return (m, body), [body]
    if cell is None:
        return None, []
    return cell, [v for v in paths(Norm()(cell[1]), lambda c: in_use(c, k)) if not constrained(v)]


def unconstrained_uses(ctx, code, param):
    """Reads of the mirror's command before it went through the constraint step."""
    res = specs.run(ctx, code, specs.actuals(code))
    dm = mk('param', code.qual, param)
    raw = mk('attr', dm, 'V')
    out = specs.outputs_of(res, ('return',), code.qual)['return']
    seen, todo, bad = set(), [out], []
    while todo:
        x = todo.pop()
        if x.n in seen:
            continue
        seen.add(x.n)
        if x is raw:
            bad.append(x)
            continue
        if x.op == 'eff' and x.a[0] == E:
            continue
        if x.op == 'with' and any(p and p[-1] == 'V' for p, _ in x.a[1]):
            todo += [v for _, v in x.a[1]]
            continue
        todo += [y for y in specs.children_of(x)]
    return bad, len(seen)


def run(ctx, rep):
    rep.rule(R, 'the constraint step, its set-up and the neighbour rule compute for every combination of their branch conditions the canonical values of '
                'their reference definitions: dead actuators zero, bounds on command plus bias, pinned and tied actuators')
    rep.rule(A, 'the command of a mirror in use that an iteration of the loop leaves behind is the result of the constraint step for that mirror')
    rep.rule(U, 'the command that surface generation reads is the one after the constraint step')
    specbased.run_refs(ctx, rep, 'c13', R, 2, **KW)
    loop = ctx.repo.funcs.get('falco.wfsc.loop')
    if loop is not None:
        for k in (1, 2):
            cell, bad = adopted(ctx, loop, k)
            if cell is None:
                rep.undecided_at(A, 'mp.dm%d.V' % k, 'the loop does not carry this command')
                continue
            rep.count('adopted_commands')
            rep.check(not bad, A, 'falco.wfsc.loop -> mp.dm%d.V' % k, loop.where,
                      'the command of mirror %d at the end of an iteration can be %s, which did not pass falco.dm.enforce_constraints' % (k, bad and pretty(bad[0])[:200]))
        rep.floor('adopted_commands', 2)
    for q, p in USERS.items():
        f = ctx.repo.funcs.get(q)
        if f is None or p not in f.args:
            rep.undecided_at(U, q, 'no longer there')
            continue
        bad, n = unconstrained_uses(ctx, f, p)
        rep.count('values_searched_for_raw_commands', n)
        rep.check(not bad, U, q, f.where, '%s computes the surface from a command that did not pass falco.dm.enforce_constraints' % q)
    specbased.positives(ctx, rep, 'C13', 'c13', **KW)
    rules_examples(ctx, rep)
    rep.assumptions += ['exact arithmetic; numpy entry points have their documented meaning',
                        'assigning several values to one element keeps the last (numpy)']


def rules_examples(ctx, rep):
    m = 'vspec.pos_c13.'
    _, bad = adopted(ctx, ctx.repo.funcs[m + '_loop_bad'], 2)
    if not bad:
        raise AnalysisBroken('positive example _loop_bad of C13 not matched')
    cell, bad = adopted(ctx, ctx.repo.funcs[m + '_loop_good'], 2)
    if bad or cell is None:
        raise AnalysisBroken('negative example _loop_good of C13 matched')
    if not unconstrained_uses(ctx, ctx.repo.funcs[m + '_surf_bad'], 'dm')[0]:
        raise AnalysisBroken('positive example _surf_bad of C13 not matched')
    if unconstrained_uses(ctx, ctx.repo.funcs[m + '_surf_good'], 'dm')[0]:
        raise AnalysisBroken('negative example _surf_good of C13 matched')
    rep.counters['positive_examples_matched'] = rep.counters.get('positive_examples_matched', 0) + 4

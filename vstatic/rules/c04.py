"""C04: what is stored for one deformable mirror depends only on that mirror."""
import re

from .. import norm, selftest, specs
from ..interp import Budget, Interp
from ..terms import const, mk, path_of, paths_in, simp, walk
from . import specbased
from . import c13, c14, c16, c22, c23

R1 = 'stores-own-mirror-only'
R2 = 'mirrors-served-alike'
R3 = 'one-mirror-per-call'
R4 = 'equals-reference'
KW = {
    'falco.setup.falco_gen_dm_stops': {'outs': ('mp.dm1.full.mask', 'mp.dm1.compact.mask', 'mp.dm2.full.mask', 'mp.dm2.compact.mask')},
    'falco.setup.falco_set_dm_surface_padding': {'outs': ('mp.compact.NdmPad', 'mp.full.NdmPad')},
    'falco.model.models.reassemble_jac_from_slices': {'outs': ('return.G1', 'return.G2')},
}
# references of other properties that state which mirror each value is for
BORROWED = [('c14', getattr(c14, 'KW', {}), ('falco.wfsc.store_dm_command_history', 'falco.wfsc.falco_compute_dm_stats', 'falco.setup.init_storage_arrays')),
            ('c13', c13.KW, ('falco.setup.set_optional_variables', 'falco.setup.falco_configure_dm1_and_dm2', 'falco.dm.enforce_constraints')),
            ('c16', c16.KW, tuple(q for q in c16.KW if not q.endswith('_get_compact_hlc_fpm'))),
            ('c22', getattr(c22, 'KW', {}), ('falco.est.gen_pairwise_probe', 'falco.est.gen_pairwise_probe_square')),
            ('c23', c23.KW, ('falco.ctrl.init', 'falco.ctrl.wrapup', 'falco.ctrl.cull_weak_actuators', 'falco.ctrl.set_utu_scale_fac', 'falco.ctrl._ad_efc', 'falco.ctrl.apply_spatial_weighting_to_Jacobian'))]
NAME = re.compile(r'(?:dm|.*DM|G)(\d)(?:V|Vnom|V0|Vall|stop|_.*)?$')
ONE = 'both materials of the hybrid-Lyot mask are sampled on the one grid that is set up for its dielectric'
GRID = {'actres', 'dx_inf0_act', 'inf0name', 'NdmPad', 'dxi', 'inf0', 'Nbox'}
# (function, the mirrors, reason): geometry of these two mirrors is shared on purpose (attributes of GRID only)
SHARED = {'falco.hlc.setup_fpm': ONE, 'falco.hlc.setup_fpm_cosine': ONE}
# functions in which the two mirrors are not meant to be alike
UNLIKE = {'falco.model.models.jacobian': 'the mirror is named by a number handed on to the workers: decided by its reference',
          'falco.wfsc.loop': 'the history is decided by C14',
          'falco.config.ModelParameters.ModelParameters.__init__': 'default values are taken from a class of each mirror'}


def own(p):
    return [x for x in re.findall(r'\[\]|[^.\[\]]+', p or '') if x not in ('', '[]')]


def mirrors(path):
    return {m.group(1) for x in own(path) for m in [NAME.match(x)] if m}


def swapname(s):
    return re.sub(r'((?<![A-Za-z0-9])(?:dm|G)|DM)([12])(?![0-9])', lambda m: m.group(1) + '21'[int(m.group(2)) - 1], s)


SELECTORS = {'dm_ind', 'uLegend', 'dm_ind_static'}      # lists of mirror numbers


def selects(t):
    return any(x.op == 'attr' and x.a[1] in SELECTORS for x in walk(t))


def chosen(t):
    return any(x.op == 'cmp' and not selects(x) and any(hasattr(y, 'op') and y.op == 'const' and y.py in (1, 2) and not isinstance(y.py, bool) for y in x.a) for x in walk(t))


def swap(t, memo=None):
    """The term with the two mirrors exchanged."""
    memo = {} if memo is None else memo
    r = memo.get(t.n)
    if r is not None:
        return r

    def g(x, sel=False):
        if hasattr(x, 'op'):
            if sel and x.op == 'const' and x.py in (1, 2) and not isinstance(x.py, bool):
                return const(3 - x.py)
            return swap(x, memo)
        if isinstance(x, tuple):
            return tuple(g(y, sel) for y in x)
        if isinstance(x, str) and t.op in ('attr', 'snap', 'eff'):
            return swapname(x)
        return x
    if t.op == 'const':
        r = const(swapname(t.py)) if isinstance(t.py, str) else t
    else:
        sel = t.op in ('cmp', 'call', 'bin', 'list') and selects(t) and len(t.a) <= 4
        na = tuple(g(x, sel) for x in t.a)
        if t.op == 'snap' and len(na) > 1 and isinstance(na[1], tuple):
            na = (na[0], tuple(sorted(na[1], key=lambda x: x[0]))) + na[2:]
        r = t if na == t.a else simp(t.op, na)
    memo[t.n] = r
    return r


def equality(c):
    """(thing, constant) of a condition thing == constant."""
    if c.op == 'cmp' and c.a[0] == 'Eq' and len(c.a) == 3:
        x, y = c.a[1], c.a[2]
        if x.op == 'const':
            x, y = y, x
        if y.op == 'const' and x.op != 'const':
            return x, y
    return None


def told(known, c):
    r = known.get(c)
    if r is None and equality(c):
        k = known.get('=', {}).get(equality(c)[0])
        if k is not None and k is not equality(c)[1]:
            return False
    return r


def learn(known, c, v):
    known[c] = v
    if v and equality(c):
        known.setdefault('=', {})[equality(c)[0]] = equality(c)[1]
    if c.op == 'not':
        learn(known, c.a[0], not v)
    elif c.op == 'and' and v or c.op == 'or' and not v:
        for x in c.a:
            if hasattr(x, 'op'):
                learn(known, x, v)


def under(t, pc, memo=None):
    """The term where the branch conditions of the path are known."""
    known = {}
    for c, v in pc or ():
        learn(known, c, v)
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.n)
        if r is None:
            v = told(known, x.a[0]) if x.op == 'phi' else None
            if v is not None:
                r = go(x.a[1] if v else x.a[2])
            else:
                na = tuple(h(y) for y in x.a)
                r = x if na == x.a else simp(x.op, na)
            memo[x.n] = r
        return r

    def h(y):
        if hasattr(y, 'op'):
            return go(y)
        if isinstance(y, tuple):
            return tuple(h(z) for z in y)
        return y
    return go(t)


def choices(terms):
    """The terms under every outcome of the conditions that select values in them."""
    cs = []
    for t in terms:
        for x in walk(t):
            if x.op == 'phi' and x.a[0] not in cs and any(mirrors(p) for p in paths_in(x.a[1]) | paths_in(x.a[2])):
                cs.append(x.a[0])
    cs = cs[:6]
    for k in range(2**len(cs)):
        pc = [(c, bool(k >> i & 1)) for i, c in enumerate(cs)]
        yield [under(t, pc) for t in terms]


def atoms(c):
    if c.op in ('not', 'and', 'or'):
        return {y for x in c.a if hasattr(x, 'op') for y in atoms(x)}
    return {c}


def refusals(ip):
    """For each refusal, the questions about mirrors that lead to it."""
    out = []
    for r in ip.raises:
        ls = {x for c, _ in r[3] or () for x in atoms(c)}
        by = {}
        for x in ls:
            ms = frozenset(m for p in paths_in(x) for m in mirrors(p))
            if ms:
                by.setdefault(ms, set()).add(x)
        out += list(by.values())
    return out


def neutral(c, refused):
    """The condition only says that the arguments were not refused."""
    mine = {x for x in atoms(c) if any(mirrors(p) for p in paths_in(x))}
    return mine in refused


def flow(funcs, interp, emit, ok, undecided):
    for f in funcs:
        ip = interp()
        ip.keep = lambda p: bool(mirrors(p))
        try:
            ip.run(f)
        except Budget as ex:
            undecided(f, str(ex))
            continue
        refused = refusals(ip)
        for e in ip.effects:
            if e.kind not in ('attr', 'inplace') or (e.how or '').startswith('via ') or e.root.op not in ('param', 'obj'):
                continue
            w = mirrors(e.path)
            if not w:
                continue
            bad = set()
            for x in [e.content if e.content is not None else e.value, e.index]:
                if x is None or not hasattr(x, 'op'):
                    continue
                for p in paths_in(under(x, e.pc)):
                    if mirrors(p) - w and not (f.qual in SHARED and own(p)[-1] in GRID):
                        bad.add(p)
            for c, _ in e.pc or ():
                ps = [p for p in paths_in(c) if mirrors(p)]
                if ps and not (neutral(c, refused)) and not any(mirrors(p) & w for p in ps):
                    bad.add('the condition on ' + min(ps))
            for p in sorted(bad):
                emit(R1, f, '%s from %s' % (e.path.lstrip('.'), p), e.where(), '%s stores in %s what it takes from %s' % (f.qual, e.path.lstrip('.'), p))
            if not bad:
                ok(R1)


def alike(ctx, f):
    """(path of mirror 1, path of mirror 2, verdict) for what the function leaves behind for the two mirrors."""
    s = ctx.S.get(f)
    if s is None or s.error or s.result is None or s.result.state is None:
        return
    ip, st, ret = s.interp, s.result.state, s.result.ret
    outs = set()
    for e in ip.effects:
        if e.kind in ('attr', 'inplace') and e.root.op == 'param' and e.root.a[0] == f.qual and not (e.how or '').startswith('via '):
            ps = []
            for x in re.findall(r'\[\]|[^.\[\]]+', e.path or ''):
                if x == '[]':
                    break
                ps.append(x)
            outs.add('.'.join([e.root.a[1]] + ps))
    if ret is not None and ret.op == 'obj':
        for b, a in list(st.heap):
            if b is ret:
                outs.add('return.' + a)
    s.result.code, s.result.own = f.qual, {f.qual}
    pairs = set()
    for o in outs:
        parts = o.split('.')
        if {m for m in mirrors(o)} & {'1', '2'} and len(parts) > 1 and not re.fullmatch(r'(dm)[12]|full|compact', parts[-1]):
            p = swapname(o)
            if p != o:
                pairs.add(tuple(sorted((o, p))))
    for a, b in sorted(pairs):
        d = specs.outputs(s.result, (a, b))
        if d[a].op in ('obj', 'phi') and any(x.op == 'obj' for x in walk(d[a])) or any(path_of(d[k])[1].lstrip('.') == k.split('.', 1)[1] for k in (a, b)):
            continue        # the object itself
        if chosen(d[a]) or chosen(d[b]):
            continue        # one of the two mirrors is selected by its number: the flow rule decides
        yield a, b, norm.compare(swap(d[a]), d[b])


def calls(funcs, interp, emit, ok):
    for f in funcs:
        ip = interp()
        ip.keep = lambda p: bool(mirrors(p))
        try:
            ip.run(f)
        except Budget:
            continue
        for c in ip.calls:
            if not c.qual or not c.qual.startswith(('falco.dm.', 'falco.diff_dm.', 'posex.')) or f.qual in SHARED:
                continue
            args = [under(x, c.pc) for x in list(c.args) + [v for _, v in c.kw] if x is not None and hasattr(x, 'op')]
            ms = {}
            for row in choices(args):
                one = {}
                for p in {p for x in row for p in paths_in(x)}:
                    for m in mirrors(p):
                        one.setdefault(m, set()).add(p)
                if len(one) > len(ms):
                    ms = one
            if len(ms) > 1:
                emit(R3, f, 'call of %s with %s' % (c.qual, ' and '.join(sorted(min(v) for v in ms.values()))), c.where(),
                     '%s hands %s quantities of several mirrors: %s' % (f.qual, c.qual, ', '.join(sorted(min(v) for v in ms.values()))))
            elif ms:
                ok(R3)


def turns(ctx, f):
    """Calls made for one of the first two mirrors, with whether the same call is made for the other: (call, partner found)."""
    s = ctx.S.get(f)
    if s is None or s.error:
        return
    by = {}
    for c in s.interp.calls:
        if not c.qual or not c.qual.startswith(('falco.', 'posex.')) or c.qual.startswith(('falco.plot.', 'falco.prop.', 'falco.util.pad_crop')):
            continue        # the light passes the mirrors one after the other, through arrays of their size
        args = tuple(under(x, c.pc) for x in list(c.args) + [v for _, v in sorted(c.kw)] if x is not None and hasattr(x, 'op'))
        ms = {m for x in args for p in paths_in(x) for m in mirrors(p)}
        if ms in ({'1'}, {'2'}) and not any(chosen(x) for x in args):
            by.setdefault(c.qual, []).append((c, args, min(ms)))
    for q, cs in by.items():
        for c, args, m in cs:
            mine = [swap(a) for a in args]
            vs = [[norm.compare(a, b).v for a, b in zip(mine, other)] for _, other, m2 in cs if m2 != m and len(other) == len(mine)]
            if any(set(v) <= {norm.EQUAL} for v in vs):
                yield c, True
            elif not any(norm.DIFFERENT not in v for v in vs):
                yield c, False


def run(ctx, rep):
    rep.rule(R1, 'what is stored at a path of one mirror depends on no path of another mirror, nor on a condition about another mirror only')
    rep.rule(R2, 'what a function leaves behind for mirror 2 is what it leaves behind for mirror 1 with the two mirrors exchanged')
    rep.rule(R3, 'no call of the mirror module receives quantities of several mirrors')
    rep.rule(R4, 'the functions that choose between the mirrors equal their reference definitions')

    def emit(rule, f, construct, at, msg):
        rep.bad(rule, '%s %s' % (f.qual, construct), at, msg)
    flow(ctx.funcs(), ctx.interp, emit, lambda r: rep.ok(r), lambda f, why: rep.undecided_at(R1, f.qual, why))
    calls(ctx.funcs(), ctx.interp, emit, lambda r: rep.ok(r))
    for f in ctx.funcs():
        if f.qual in UNLIKE:
            continue
        for a, b, v in alike(ctx, f) or ():
            if v.v == norm.EQUAL:
                rep.ok(R2, '%s %s' % (f.qual, b))
                rep.count('stores_alike_for_both_mirrors')
            elif v.v == norm.UNKNOWN:
                rep.count('stores_not_compared')
            else:
                rep.bad(R2, '%s %s / %s' % (f.qual, a, b), f.where, '%s leaves %s in %s where the other mirror gets %s' % (
                    f.qual, norm.pretty(v.right)[:250] if v.right is not None else '?', b, norm.pretty(v.left)[:250] if v.left is not None else '?'))
        for c, found in turns(ctx, f):
            if found:
                rep.ok(R2, '%s %s' % (f.qual, c.qual))
                rep.count('calls_alike_for_both_mirrors')
            else:
                rep.bad(R2, '%s call of %s' % (f.qual, c.qual), c.where(), '%s calls %s for one of the mirrors and not likewise for the other' % (f.qual, c.qual))
    rep.floor('stores_alike_for_both_mirrors', 20)
    specbased.run_refs(ctx, rep, 'c04', R4, 3, **KW)
    for name, kw, quals in BORROWED:
        refs = specs.specs_of(ctx, name)
        for q in quals:
            specs.decide(ctx, rep, R4, q, refs[q], **kw.get(q, {}))
    rep.floor('reference_comparisons', 8)
    repo, S = selftest.posrepo()
    found = set()
    pos = selftest.posfuncs('c04')
    mkip = lambda: Interp(repo, policy=lambda q, d: 'opaque', summaries=S)
    flow(pos, mkip, lambda r, f, *a: found.add(f.name), lambda r: None, lambda *a: None)
    calls(pos, mkip, lambda r, f, *a: found.add(f.name), lambda r: None)

    class P:
        pass
    P.S = S
    for f in pos:
        found |= {f.name for _, there in turns(P, f) if not there}
        for a, b, v in alike(P, f) or ():
            if v.v not in (norm.EQUAL, norm.UNKNOWN):
                found.add(f.name)
    selftest.exact(rep, 'C04', 'c04', found)
    specbased.positives(ctx, rep, 'C04', 'c04', **KW)
    rep.assumptions += ['a quantity belongs to a mirror when a component of its path carries the number of the mirror',
                        'a mirror that is compared with a list of mirrors in use is meant by its number']

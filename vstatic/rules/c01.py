"""C01: trial evaluations leave the deformable mirrors as they found them (value-graph neutrality of the mirror state)."""
from .. import selftest
from ..terms import mk, subst, show, dotted, walk, path_of

R1 = 'mirror-state-restored'
WATCH = {'V', 'dm_ind', 'act_ele', 'Nele'}
# functions whose purpose is to adopt a command, choose mirrors or actuators, or set a mirror up; confirmed by reading
ADOPT = {
    'falco.ctrl.wrapper': 'adds the chosen command change',
    'falco.ctrl.wrapup': 'puts a candidate command on the mirrors for its caller, which restores them',
    'falco.ctrl.cull_weak_actuators': 'chooses the actuators in use',
    'falco.wfsc.loop': 'the correction loop itself',
    'falco.dm.enforce_constraints': 'the constraint step',
}
ADOPT_MODULES = ('falco.setup', 'falco.hlc', 'falco.config')
IDENT_CALLS = {'numpy.copy', 'numpy.array', 'numpy.asarray', 'copy.copy', 'copy.deepcopy', 'list', 'tuple', 'numpy.atleast_1d',
               'numpy.ascontiguousarray', 'numpy.asanyarray'}
YES, NO, MAYBE = 1, 0, -1


def adopts(q):
    return q in ADOPT or q.startswith(ADOPT_MODULES)


def worst(vals):
    r = YES
    for v in vals:
        if v == NO:
            return NO
        if v == MAYBE:
            r = MAYBE
    return r


def fullslice(i):
    if i.op == 'const':
        return i.py is Ellipsis
    if i.op == 'slice':
        return all(x.op == 'const' and x.py is None for x in i.a)
    if i.op == 'tuple':
        return all(fullslice(x) for x in i.a)
    return False


class Neutral:
    def __init__(self, S, adopt):
        self.S, self.adopt = S, adopt
        self.memo = {}
        self.why = None
        self.open = set()
        self.mus = {}

    def value(self, v, target, st, conds, d=0):
        if d > 60:
            return MAYBE
        op = v.op
        if v is target:
            c = st.cont.get(v)
            return YES if c is None else self.value(c, target, st, conds, d + 1) if c is not v else YES
        if op == 'new':
            c = st.cont.get(v)
            return MAYBE if c is None else self.value(c, target, st, conds, d + 1)
        if op == 'phi':
            c = v.a[0]
            if c in conds:
                return self.value(v.a[1] if conds[c] else v.a[2], target, st, conds, d + 1)
            return worst([self.value(v.a[1], target, st, dict(conds, **{}) | {c: True}, d + 1),
                          self.value(v.a[2], target, st, dict(conds) | {c: False}, d + 1)])
        if op == 'scopy':
            return self.value(v.a[0], target, st, conds, d + 1)
        if op == 'call' and v.a[0] in IDENT_CALLS and v.a[1]:
            return self.value(v.a[1][0], target, st, conds, d + 1)
        if op == 'meth' and v.a[0] == 'copy':
            return self.value(v.a[1], target, st, conds, d + 1)
        if op == 'view' and v.a[1][0] == 'call' and v.a[1][1] in IDENT_CALLS:
            return self.value(v.a[0], target, st, conds, d + 1)
        if op == 'eff':
            r = YES if self.excluded(v, conds) else self.write(v.a[0], v.a[3], v.a[1])
            if r == NO:
                self.why = v.a[0]
                return NO
            return worst([r, self.value(v.a[4], target, st, conds, d + 1)])
        if op == 'upd' and fullslice(v.a[1]):
            return self.value(v.a[2], target, st, conds, d + 1)
        if op == 'last':
            return self.value(v.a[0], target, st, conds, d + 1)
        if op == 'loop':
            return worst([self.value(v.a[2], target, st, conds, d + 1), self.value(v.a[3], target, st, conds, d + 1)])
        if op == 'rec':
            # the value a system of loop-carried cells ends with: by induction over the passes
            cells = {x: x.a[2] for b in v.a[4] for x in walk(b) if x.op == 'mu' and x.a[1] == 'sys'}
            if not v.a[3]:
                return MAYBE
            old = {m: self.mus.get(m) for m in cells}
            was = self.open & set(cells)
            self.mus = dict(self.mus)
            self.mus.update({m: (v.a[3][j], v.a[4][j]) for m, j in cells.items() if j < len(v.a[3])})
            first = {m for m, j in cells.items() if j == 0}
            self.open = (self.open - set(cells)) | first
            r = worst([self.value(v.a[3][0], target, st, conds, d + 1), self.value(v.a[4][0], target, st, conds, d + 1)])
            self.open = (self.open - set(cells)) | was
            self.mus.update({m: o for m, o in old.items() if o is not None})
            return r
        if op == 'mu':
            if v.a[1] == 'self':
                return YES
            if v in self.open:
                return YES              # by induction over the passes of the loop
            rec = self.mus.get(v)
            if rec is None:
                return MAYBE
            self.open.add(v)
            r = worst([self.value(x, target, st, conds, d + 1) for x in rec])
            self.open.discard(v)
            return r
        if op == 'choicev':
            return worst([self.value(x, target, st, conds, d + 1) for x in v.a])
        if op in ('unk', 'undef', 'aview', 'choice') or any(x.op == 'unk' for x in walk(v)):
            return MAYBE
        return NO

    def excluded(self, v, conds):
        """The callee writes only under a condition that is known not to hold here."""
        f = self.S.repo.funcs.get(v.a[0])
        s = self.S.get(f) if f is not None else None
        if s is None or not conds:
            return False
        m = {mk('param', f.qual, k): x for k, x in v.a[2]}
        es = [e for e in s.interp.effects if e.kind == 'attr' and e.root.op == 'param' and e.root.a == (f.qual, v.a[3]) and e.path == v.a[1]]
        return bool(es) and all(any(conds.get(subst(c, m), pol) != pol for c, pol in e.pc) for e in es)

    def write(self, q, param, path):
        """Is the write of function q to param.path neutral (restored on every exit)?"""
        if q == 'falco.dm.enforce_constraints':
            return YES
        if self.adopt(q):
            return NO
        k = (q, param, path)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = YES          # recursion: optimistic
        f = self.S.repo.funcs.get(q)
        s = self.S.get(f) if f is not None else None
        if s is None or s.error or s.result is None:
            self.memo[k] = MAYBE
            return MAYBE
        parts = [x for x in path.split('.') if x]
        if not parts or '[]' in path:
            self.memo[k] = MAYBE
            return MAYBE
        t = mk('param', q, param)
        for p in parts:
            base, t = t, mk('attr', t, p)
        mus, self.mus = self.mus, s.interp.mu_tab
        r = worst([self.exit_value(x.state, base, parts[-1]) for x in s.result.exits])
        self.mus = mus
        self.memo[k] = r
        return r

    def exit_value(self, st, base, attr):
        target = mk('attr', base, attr)
        v = st.heap.get((base, attr), target)
        return self.value(v, target, st, {})


def watched(st, qual):
    """(object, attribute) pairs of watched mirror state that the function may have changed, reached from its parameters."""
    seen = set()
    for (b, a) in st.heap:
        if a in WATCH and (b, a) not in seen and rooted(b, qual):
            seen.add((b, a))
    for k in st.cont:
        if k.op == 'attr' and k.a[1] in WATCH and rooted(k, qual):
            seen.add((k.a[0], k.a[1]))
    return seen


def rooted(t, qual):
    r, _ = path_of(t)
    return r.op == 'param' and r.a[0] == qual


def decide(funcs, S, adopt, known, emit, ok, undecided, count, is_dm):
    N = Neutral(S, adopt)
    for f in funcs:
        if adopt(f.qual):
            continue
        s = S.get(f)
        if s is None or s.error or s.result is None:
            continue
        N.mus = s.interp.mu_tab
        pairs = {}
        for x in s.result.exits:
            for b, a in watched(x.state, f.qual):
                pairs.setdefault((b, a), []).append(x)
        good = True
        for (b, a), xs in sorted(pairs.items(), key=lambda z: str(dotted(z[0][0])) + z[0][1]):
            name = dotted(mk('attr', b, a))
            if name is None or not is_dm(name):
                continue
            count('state_items', 1)
            for x in xs:
                count('exits', 1)
                N.why = None
                r = N.exit_value(x.state, b, a)
                if r == NO:
                    if N.why is not None and known(N.why) and not adopt(N.why):
                        continue        # the callee is judged itself
                    good = False
                    v = x.state.heap.get((b, a), mk('attr', b, a))
                    emit(f, name, x, show(x.state.cont.get(v, v), 4)[:160])
                elif r == MAYBE:
                    good = False
                    undecided(f, name)
        if pairs and good:
            ok(f)


def is_dm(name):
    p = name.split('.')
    return p[-1] == 'dm_ind' or (len(p) >= 2 and p[-2].startswith('dm') and p[-2][2:].isdigit())


def run(ctx, rep):
    rep.rule(R1, 'on every exit of every function that is not meant to adopt a command, each mirror attribute among V, act_ele, Nele and the list dm_ind '
                 'holds the value it had at entry (the same array unmodified, or a copy taken before it was changed), also through the calls it makes')
    decide(ctx.judged(), ctx.S, adopts, ctx.known,
           lambda f, n, x, v: rep.bad(R1, '%s leaves %s changed' % (f.qual, n), '%s:%d' % (f.mod.rel, getattr(x.node, 'lineno', f.node.lineno)),
                                      '%s returns with %s not restored (value at exit: %s)' % (f.qual, n, v)),
           lambda f: rep.ok(R1, f.qual), lambda f, n: rep.undecided_at(R1, f.qual, n), rep.count, is_dm)
    rep.floor('state_items', 20)
    _, S = selftest.posrepo()
    found = set()
    decide(selftest.posfuncs('c01'), S, lambda q: False, lambda q: False, lambda f, n, x, v: found.add(f.name), lambda f: None,
           lambda f, n: None, lambda *a: None, is_dm)
    selftest.exact(rep, 'C01', 'c01', found)
    rep.assumptions += ['re-applying the constraint step to a command that satisfies the constraints returns the same command',
                        'an exception that leaves one of these functions ends the run: exits by exception are not counted']

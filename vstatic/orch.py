"""Comparison of procedures that coordinate others (the correction loop, setup, wrappers) with their reference.

Each call of another procedure yields, for every location it may write, a new *version* of that location.  A version is a
number assigned by value numbering: procedure, arguments and the versions of everything the procedure reads through them.
Loop-carried cells are named by the location they hold (local variables: by what they are computed from).  Two procedures agree when,
from equal cells at the head of each loop, they leave equal versions in every cell at its end, and in every output.
"""
import hashlib

from . import norm
from .norm import Norm, deepwalk, compare, EQUAL, DIFFERENT, UNKNOWN, Verdict, okey, conds_of
from .terms import mk, subst, const, walk, rebuild, NONE


class Side:
    def __init__(self, res, outs):
        self.res, self.ip = res, res.ip
        self.outs = outs                       # name -> term
        self.mus = {}                          # mu -> (init, body)
        todo = list(outs.values())
        while todo:
            t = todo.pop()
            for x in walk(t):
                if x.op == 'mu' and x not in self.mus and x in self.ip.mu_val:
                    v = self.ip.mu_val[x]
                    self.mus[x] = v
                    todo += [v[0], v[1]]
        self.names = {}


def base_of(side, m):
    k = side.ip.mu_key[m]
    return k


def stable(x):
    return all(y.op in ('param', 'attr', 'idx', 'const', 'glob', 'any', 'mod') for y in walk(x))


def homes(s, m):
    """The attribute that holds a fresh array when the loop starts."""
    h = s.ip.mu_home.get(m)
    names = {x.n: x for k in s.ip.mu_key.values() if k[0] == 'heap' for x in [k[1][0]] if stable(x)}
    for b, a in h[0] if h else ():
        if b in names:
            return '%d|%s' % (b, a)
    return None


def objname(side, o, cache):
    return cache.get(o)


def plain(t, memo=None):
    """Objects told by their class and what is stored in them only."""
    memo = {} if memo is None else memo
    r = memo.get(t.n)
    if r is None:
        r = memo[t.n] = mk('obj', t.a[0], 0) if t.op == 'obj' else rebuild(t, lambda x: plain(x, memo))
    return r


def alloc_match(a, b):
    """Objects created by the procedures, matched by class and by the attributes they are given."""
    def objs(s):
        d = {}
        for m in s.mus:
            kind, k = s.ip.mu_key[m]
            if kind == 'heap' and k[0].op == 'obj':
                d.setdefault(k[0], set()).add(k[1])
        return d
    da, db = objs(a), objs(b)
    names = ({}, {})
    pairs = sorted(((len(x & y) / (len(x | y) or 1), i, j, p, q) for i, (p, x) in enumerate(da.items()) for j, (q, y) in enumerate(db.items())
                    if p.a[0] == q.a[0]), key=lambda z: (-z[0], z[1], z[2]))
    n = 0
    for sc, i, j, p, q in pairs:
        if p in names[0] or q in names[1] or sc == 0:
            continue
        names[0][p] = names[1][q] = 'o%d' % n
        n += 1
    return names


class Pair:
    def __init__(self, code, spec, scalars=(), vacuous=()):
        self.s = (code, spec)
        self.same = {}
        self.leafs = {}
        self.content = {}
        self.scalars, self.vacuous = scalars, vacuous
        self.name_cells()
        self.memo = ({}, {})
        self.tried = {}

    # -------------------------------------------------------------- naming of loop-carried cells
    def name_cells(self):
        objn = alloc_match(*self.s)
        locs = ([], [])
        for i, s in enumerate(self.s):
            for m in s.mus:
                kind, k = s.ip.mu_key[m]
                d = m.a[0]
                if kind == 'heap':
                    b, a = k
                    if stable(b):
                        nm = 'h|%d|%s' % (b.n, a)
                    elif b in objn[i]:
                        nm = 'o|%s|%s' % (objn[i][b], a)
                    else:
                        nm = None
                elif kind == 'cont' and stable(k):
                    nm = 'c|%d' % k.n
                elif kind == 'cont' and homes(s, m):
                    nm = 'f|' + homes(s, m)
                else:
                    nm = None
                if nm is None:
                    locs[i].append(m)
                else:
                    s.names[m] = mk('ext', 'cell:%d:%s' % (d, nm))
        self.color(locs)

    def color(self, locs):
        cols = ({m: 'l' for m in locs[0]}, {m: 'l' for m in locs[1]})
        for _ in range(6):
            new = ({}, {})
            for i, s in enumerate(self.s):
                to = dict(s.names)
                to.update({m: mk('ext', 'cell:%d:%s' % (m.a[0], c)) for m, c in cols[i].items()})
                memo = {}
                for m in locs[i]:
                    init, body = s.mus[m][:2]
                    h = '%s|%s|%s' % (cols[i][m], self.key(subst(init, to, memo)), self.key(subst(body, to, memo)))
                    new[i][m] = hashlib.sha1(h.encode()).hexdigest()[:12]
            cols = new
        left = ([], [])
        for i, s in enumerate(self.s):
            other = set(cols[1 - i].values())
            for m in locs[i]:
                if cols[i][m] in other:
                    s.names[m] = mk('ext', 'cell:%d:%s' % (m.a[0], cols[i][m]))
                else:
                    left[i].append(m)
        # places that only one side writes in a loop: the other side may keep the value in a variable meanwhile
        have = [set(s.names.values()) for s in self.s]
        for i, s in enumerate(self.s):
            for m, x in list(s.names.items()):
                if x not in have[1 - i]:
                    left[i].append(m)

        def pair(kind, f):
            by = ({}, {})
            for i in (0, 1):
                for m in left[i]:
                    k = f(i, m)
                    if k is not None:
                        by[i].setdefault((m.a[0], k), []).append(m)
            for k, l in by[0].items():
                r = by[1].get(k, ())
                if len(l) == 1 and len(r) == 1:
                    x = mk('ext', 'cell:%d:%s:%s' % (k[0], kind, k[1]))
                    self.s[0].names[l[0]] = self.s[1].names[r[0]] = x
                    left[0].remove(l[0])
                    left[1].remove(r[0])

        def varname(i, m):
            nm = m.a[4]
            if self.s[i].ip.mu_key[m][0] == 'cont':
                h = self.s[i].ip.mu_home.get(m, ((), (), ()))[1]
                nm = 'content of ' + h[0] if h else None
            return nm

        def blurred(what):
            """What the cell starts from or becomes, whatever the cells in it are."""
            memo = ({}, {})

            def f(i, m):
                t = self.s[i].mus[m][what]
                to = {x: mk('ext', 'cell:%d' % x.a[0]) for x in self.s[i].mus}
                return '%d' % self.canon(self.fold(subst(t, to, memo[i]), {})).n
            return f
        def place(i, m):
            """The attribute of a new object (or of one that is new on some paths) that holds the array."""
            h = self.s[i].ip.mu_home.get(m, ((), (), ()))[2]
            return min(('%d|%s' % (self.canon(plain(b)).n, a) for b, a in h), default=None)
        # variables of the same name, then those that receive or start from the same, then the only ones left
        pair('n', varname)
        pair('b', blurred(1))
        pair('i', blurred(0))
        pair('s', self.skeleton)
        pair('p', place)
        self.by_value(left)
        pair('only', lambda i, m: '')
        # arrays that only the reference keeps, while each of the code's has its counterpart: using another array in its place is a difference
        busy = {m.a[0] for m in left[0]}
        for n, m in enumerate(left[1]):
            if m.a[0] not in busy and self.s[1].ip.mu_key[m][0] == 'cont':
                self.s[1].names[m] = mk('ext', 'cell:%d:only!%d' % (m.a[0], n))

    def by_value(self, left):
        """Cells that receive the same value, whatever its branches look like; then, among cells of which none does, the most similar ones."""
        for d in sorted({m.a[0] for m in left[0]}):
            ls, rs = [[m for m in left[i] if m.a[0] == d] for i in (0, 1)]
            if len(ls) > 6 or len(rs) > 6:
                continue
            seen = {}
            for l in list(ls):
                for r in list(rs):
                    x = mk('ext', 'cell:%d:v:%d' % (d, l.n))
                    t = [plain(subst(s.mus[m][1], {**s.names, m: x})) for s, m in ((self.s[0], l), (self.s[1], r))]
                    v = compare(t[0], t[1], budget=150, scalars=self.scalars, vacuous=self.vacuous)
                    seen[l, r] = v.v, t
                    if v.v == EQUAL:
                        self.s[0].names[l] = self.s[1].names[r] = x
                        ls.remove(l)
                        rs.remove(r)
                        left[0].remove(l)
                        left[1].remove(r)
                        break
            if len(ls) != len(rs):
                continue

            def near(l, r):
                a, b = [{y.n for y in deepwalk(self.canon(t))} for t in seen[l, r][1]]
                return len(a & b) / (len(a | b) or 1)
            score = {(l, r): near(l, r) for l in ls for r in rs if (l, r) in seen}
            pick = {}
            for l, r in sorted(score, key=lambda z: (-score[z], z[0].n, z[1].n)):
                if l not in pick and r not in pick.values():
                    pick[l] = r
            # none of them may be equal to another one than the one chosen
            if len(pick) < len(ls) or any(seen[p][0] != DIFFERENT for p in pick.items()) or any(
                    seen[l, r][0] != DIFFERENT and score[l, r] > 0.8*score[l, pick[l]] for l, r in score):
                continue
            for l, r in pick.items():
                self.s[0].names[l] = self.s[1].names[r] = mk('ext', 'cell:%d:near:%d' % (d, l.n))
                left[0].remove(l)
                left[1].remove(r)

    def skeleton(self, i, m):
        """Which calls and operations a cell receives, whatever they are applied to."""
        memo = {}

        def f(t):
            r = memo.get(t.n)
            if r is None:
                if t.op == 'eff':
                    r = mk('ext', 'eff %s %s' % t.a[:2])
                elif t.op == 'call' and isinstance(t.a[0], str) and t.a[0].startswith('falco.'):
                    r = mk('ext', 'call ' + t.a[0])
                elif t.op in ('mu', 'exit', 'new', 'obj'):
                    r = mk('ext', t.op)
                else:
                    r = rebuild(t, f)
                memo[t.n] = r
            return r
        init, body = self.s[i].mus[m][:2]
        return '%d/%d' % (f(init).n, f(body).n)

    def key(self, t):
        """A number for a term whose cells are already named."""
        return 'k%d' % self.canon(self.fold(t, {})).n

    def canon(self, t):
        return Norm(scalars=self.scalars)(t)

    def fold(self, t, memo):
        r = memo.get(t.n)
        if r is not None:
            return r
        if t.op == 'eff' or (t.op == 'call' and isinstance(t.a[0], str) and t.a[0].startswith('falco.')):
            if t.op == 'eff':
                q, path, bv, param, old = t.a
                c = mk('tuple', const(q), *[mk('tuple', const(k), self.fold(v, memo)) for k, v in bv])
                tail = (const('w:' + path), const(param), self.fold(old, memo))
            else:
                c = mk('tuple', const(t.a[0]), *[mk('tuple', const(k), self.fold(v, memo)) for k, v in t.a[2]])
                tail = ()
            r = mk('tuple', self.event(c), *tail)
            r = mk('ext', 'v:%d' % self.version(r).n) if tail else mk('call', 'falco.result', (), (('of', self.event(c)),))
        elif t.op == 'obj':
            r = mk('obj', t.a[0], 0)        # which object is told by what is stored in it
        elif t.op == 'exit':
            r = mk('ext', 'after:%s' % t.a[0].a[0]) if t.a[0].op == 'ext' else t
        else:
            r = rebuild(t, lambda x: self.fold(x, memo))
        memo[t.n] = r
        return r

    def version(self, t):
        self.content.setdefault('v:%d' % t.n, t)
        return t

    def event(self, c):
        """Leaf for a call with folded contents c."""
        n = Norm(scalars=self.scalars)(c)
        leaf = mk('ext', 'ev:%d' % n.n)
        self.leafs.setdefault(leaf, n)
        return leaf

    # -------------------------------------------------------------- comparison
    def folded(self, i, t):
        s = self.s[i]
        return self.fold(subst(t, s.names), self.memo[i])

    def resolve(self, t, memo):
        r = memo.get(t.n)
        if r is not None:
            return r
        if t.op == 'ext' and isinstance(t.a[0], str):
            k = t.a[0]
            if t in self.same:
                r = self.same[t]
            elif k in self.content:
                r = mk('ext', 'v:%d' % self.version(self.resolve(self.content[k], memo)).n)
            elif t in self.leafs:
                r = self.event(self.resolve(self.leafs[t], memo))
                r = self.same.get(r, r)
            else:
                r = t
        else:
            r = rebuild(t, lambda x: self.resolve(x, memo))
        memo[t.n] = r
        return r

    def events_in(self, t, out, seen):
        """Event leaves of t, those an event is computed from before it."""
        for x in walk(t):
            if x.op != 'ext' or x in seen:
                continue
            seen.add(x)
            if x in self.leafs:
                self.events_in(self.leafs[x], out, seen)
                out.append(x)
            elif x.a[0] in self.content:
                self.events_in(self.content[x.a[0]], out, seen)
        return out

    def reaches(self, t, bad):
        return any(x in bad for x in self.events_in(t, [], set()))

    def run(self):
        obl = []
        for o in self.s[0].outs:
            obl.append((o, self.s[0].outs[o], self.s[1].outs[o]))
        inv = [{}, {}]
        for i, s in enumerate(self.s):
            for m, nm in s.names.items():
                inv[i].setdefault(nm.a[0], m)
        for nm in inv[0]:
            if nm in inv[1]:
                a, b = self.s[0].mus[inv[0][nm]], self.s[1].mus[inv[1][nm]]
                lab = cellname(self.s[0], inv[0][nm])
                obl.append((lab + ' before the loop', a[0], b[0]))
                obl.append((lab + ' carried by the loop', a[1], b[1]))
                obl.append(('the range of the loop', a[2], b[2]))
        whole = [(x, y) for lab, x, y in obl]
        obl = [(lab, self.folded(0, x), self.folded(1, y)) for lab, x, y in obl]
        ev = [[], []]
        seen = [set(), set()]
        for _, x, y in obl:
            self.events_in(x, ev[0], seen[0])
            self.events_in(y, ev[1], seen[1])
        doubt, why = set(), {}
        for e in ev[0]:
            memo = {}
            e1 = self.resolve(e, memo)
            right = [(f, self.resolve(f, memo)) for f in ev[1]]
            if any(e1 is f1 for f, f1 in right):
                continue
            L = self.leafs[e1]
            for f, f1 in right:
                R = self.leafs[f1]
                if L.a[0] is not R.a[0]:
                    continue
                v = compare(L, R, scalars=self.scalars, vacuous=self.vacuous)
                if v.v == EQUAL:
                    self.same[e1] = f1
                    break
                if v.v == UNKNOWN:
                    doubt.add(e1)
                    doubt.add(f1)
                why.setdefault(e1, []).append(v)
        out = []
        memo = {}
        norm.CONTENT[:] = [s.mus for s in self.s]
        for k, (lab, x, y) in enumerate(obl):
            x, y = self.resolve(x, memo), self.resolve(y, memo)
            v = Verdict(EQUAL) if x is y else compare(x, y, scalars=self.scalars, vacuous=self.vacuous)
            if v.v == DIFFERENT and (self.reaches(x, doubt) or self.reaches(y, doubt)):
                v = Verdict(UNKNOWN, 'a call could not be matched', v.env, v.left, v.right)
            if v.v != EQUAL:
                # calls were matched one by one: where the branches around them are arranged differently, only the whole value tells
                l, r = [plain(subst(t, s.names)) for t, s in zip(whole[k], self.s)]
                w = compare(l, r, budget=400, scalars=self.scalars, vacuous=self.vacuous)
                if not v.v == w.v == DIFFERENT:
                    v = w
            if v.v == DIFFERENT:
                # the first call whose inputs differ says more than the version number that it leads to
                rights = {self.resolve(f, memo) for f in ev[1]}
                for e in self.events_in(x, [], set()):
                    if e not in rights and e in why:
                        w = min(why[e], key=lambda z: len(okey(z.left)) + len(okey(z.right)))
                        v = Verdict(DIFFERENT, 'call of ' + str(self.leafs[e].a[0].py), w.env, w.left, w.right)
                        break
                    if e not in rights:
                        v = Verdict(DIFFERENT, 'call of %s has no counterpart' % self.leafs[e].a[0].py, v.env, v.left, v.right)
                        break
            out.append((lab, v))
        norm.CONTENT[:] = [{}, {}]
        self.counts = {'events': len(ev[0]), 'cells': len(self.s[0].names), 'obligations': len(obl)}
        return out


def cellname(s, m):
    kind, k = s.ip.mu_key[m]
    return m.a[4] or kind

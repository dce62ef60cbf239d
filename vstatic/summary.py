"""Bottom-up write/alias summaries of repository functions."""
import re
import sys

from .interp import Interp, Budget
from .terms import path_of

sys.setrecursionlimit(20000)


class Write:
    __slots__ = ('param', 'parts', 'path', 'kind', 'effect', 'task')

    def __init__(self, param, path, kind, effect):
        self.param, self.path, self.kind, self.effect = param, path, kind, effect
        self.parts = tuple(x for x in re.findall(r'\[\]|[^.\[\]]+', path))

    def key(self):
        return (self.param, self.path, self.kind)

    def origin(self):
        """The effect at the bottom of the call chain."""
        e = self.effect
        n = 0
        while e.chain is not None and n < 20:
            e = e.chain.effect if hasattr(e.chain, 'effect') else e.chain
            n += 1
        return e


    def passes(self, quals):
        """Whether the store is made in, or on behalf of, one of these functions."""
        e = self.effect
        for _ in range(20):
            if e.func.qual in quals or any(q in quals for q in e.stack or ()):
                return True
            if e.chain is None:
                return False
            e = e.chain.effect if hasattr(e.chain, 'effect') else e.chain
        return False


class Summary:
    def __init__(self, func):
        self.func = func
        self.writes = []
        self.globals = []
        self.ret_alias = []
        self.ret_param = None
        self.ret_tuple = None
        self.result = None
        self.error = None


class Summaries:
    def __init__(self, repo, budget=300000, inline=None):
        self.repo, self.budget = repo, budget
        self.inline = inline or (lambda q: False)
        self.memo = {}
        self.active = set()

    def get(self, f):
        s = self.memo.get(f.qual)
        if s is not None:
            return s
        if f.qual in self.active:
            return None
        if f.qual.startswith('falco.proper'):
            return None
        self.active.add(f.qual)
        s = Summary(f)
        ip = Interp(self.repo, policy=lambda q, d: 'inline' if self.inline(q) else 'opaque', summaries=self, budget=self.budget)
        try:
            s.result = ip.run(f)
        except Budget as ex:
            s.error = str(ex)
        self.active.discard(f.qual)
        s.interp = ip
        seen = set()
        for e in ip.effects:
            if e.kind == 'global' or e.root.op in ('glob', 'ext', 'mod', 'class', 'default') and e.kind in ('inplace', 'attr'):
                s.globals.append(e)
                continue
            if e.root.op == 'param' and e.root.a[0] == f.qual:
                w = Write(e.root.a[1], e.path, 'attr' if e.kind == 'attr' else 'inplace', e)
                if w.key() not in seen:
                    seen.add(w.key())
                    s.writes.append(w)
        if s.result is not None:
            al = []
            always = None
            for x in s.result.exits:
                v = x.value
                nm = v.a[1] if v.op == 'param' and v.a[0] == f.qual else None
                always = nm if always in (None, nm) and nm is not None else False
                for r in ip.ident_roots(v, x.state):
                    root, p = path_of(r)
                    if root.op == 'param' and root.a[0] == f.qual and r not in x.state.cont:
                        k = (root.a[1], tuple(z for z in re.findall(r'\[\]|[^.\[\]]+', p)))
                        if k not in al:
                            al.append(k)
            s.ret_alias = al
            s.ret_param = always or None
            tups = [x.value.a for x in s.result.exits if x.value.op == 'tuple']
            if tups and len(tups) == len(s.result.exits) and len({len(t) for t in tups}) == 1:
                row = []
                for col in zip(*tups):
                    c = col[0]
                    row.append(c.a[1] if all(x is c for x in col) and c.op == 'param' and c.a[0] == f.qual else None)
                if any(row):
                    s.ret_tuple = tuple(row)
        self.memo[f.qual] = s
        return s

"""Draft of the guard references (spec/c09.py): for each function, the statements that decide what it refuses.  The draft is read and corrected by hand."""
import ast
import sys
sys.path.insert(0, '/verif')
from vstatic import core                                      # noqa: E402

ctx = core.Ctx(sys.argv[1] if len(sys.argv) > 1 else '/repo')


CHECKS = {q.split('.')[-1] for q in ctx.repo.funcs if q.startswith('falco.check.') and q.count('.') == 2} - {'string', 'boolean', 'dictionary', 'centering'}


def isguard(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in CHECKS:
        return True
    return isinstance(n, ast.Raise) or isinstance(n, ast.Call) and ast.unparse(n.func).startswith(('check.', 'falco.check.', '_check'))


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute)}


def exprnames(n):
    return names(n)


class Slice:
    def __init__(self, body):
        self.body = body
        self.want = set()
        while True:
            n = len(self.want)
            self.out, _ = self.block(body, False)
            if len(self.want) == n:
                break

    def block(self, body, later):
        out = []
        keep_any = later
        for s in reversed(body):
            r = self.stmt(s, keep_any)
            if r is not None:
                out.append(r)
                if any(isguard(x) for x in ast.walk(s)):
                    keep_any = True
        return list(reversed(out)), keep_any

    def stmt(self, s, later):
        has = any(isguard(x) for x in ast.walk(s))
        if isinstance(s, ast.If):
            a, _ = self.block(s.body, later)
            b, _ = self.block(s.orelse, later)
            if not a and not b:
                return None
            self.want |= exprnames(s.test)
            return ast.If(s.test, a or [ast.Pass()], b)
        if isinstance(s, (ast.For, ast.While)):
            a, _ = self.block(s.body, later)
            if not a:
                return None
            if isinstance(s, ast.For):
                self.want |= exprnames(s.iter)
                return ast.For(s.target, s.iter, a, [], lineno=0)
            self.want |= exprnames(s.test)
            return ast.While(s.test, a, [])
        if isinstance(s, ast.Try):
            if not has:
                return None
            return s
        if isinstance(s, ast.With):
            a, _ = self.block(s.body, later)
            return ast.With(s.items, a, lineno=0) if a else None
        if isinstance(s, ast.Return):
            return ast.Return(None) if later else None
        if isinstance(s, ast.Raise):
            return ast.Raise(ast.Call(s.exc.func, [], []) if isinstance(s.exc, ast.Call) else s.exc, None)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return None
        if has:
            self.want |= exprnames(s)
            return s
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            t = set()
            for x in ts:
                if isinstance(x, ast.Attribute):
                    t.add(x.attr)
                elif isinstance(x, ast.Subscript):
                    t.add('[]')
                else:
                    t |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
            if t & self.want:
                self.want |= exprnames(s.value)
                return s
        return None


skip = {l.strip() for l in open(sys.argv[2])} if len(sys.argv) > 2 else set()
print('"""What each function refuses (arguments and option values), before it does anything else."""')
print('import copy\nimport os\n\nfrom astropy.io import fits\nimport falco\nimport numpy as np\nimport scipy.sparse\nfrom falco import check, diff_dm, proper')
print('from falco.check import ' + ', '.join(sorted(x for x in CHECKS if x.endswith(('scalar', 'integer', '_array')))))
print('from falco.util import ceil_even, pad_crop\n')
mods = {}
for f in ctx.funcs():
    s = ctx.S.get(f)
    if s is None or s.error or f.qual.startswith(('falco.check.', 'falco.plot.')) or f.qual in skip or '<locals>' in f.qual:
        continue
    nr = len([r for r in s.interp.raises if len(r[4]) == 1])
    nc = len([c for c in s.interp.calls if c.qual and c.qual.startswith('falco.check.') and len(c.stack or ()) <= 1])
    if not nr and not nc:
        continue
    body = f.node.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        body = body[1:]
    sl = Slice(body)
    d = ast.FunctionDef(f.qual.replace('.', '__'), f.node.args, sl.out or [ast.Pass()], [], lineno=0)
    print('\n')
    print(ast.unparse(ast.fix_missing_locations(d)))

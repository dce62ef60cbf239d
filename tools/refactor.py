#!/usr/bin/env python3
"""Development aid: writes a copy of the package in which every function was rewritten without changing what it does.

usage: refactor.py OUT MODE[,MODE...] [SEED]      modes: rename temp invert helper while swap noop comp commute elsify
Used to confirm that the checks stay quiet on behaviour-preserving edits (VERIF_REPO=OUT python3 check.py ...).
"""
import ast
import copy
import os
import random
import shutil
import sys

SRC = '/repo'


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def has(n, *types):
    return any(isinstance(x, types) for x in ast.walk(n))


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        return n


def do_rename(f, rng):
    if has(f, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.ExceptHandler):
        return
    nested = [x for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not f]
    if nested:
        return
    args = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
    m = {k: k + '_v' for k in names(f, ast.Store) - args}
    f.body = [Rename(m).visit(s) for s in f.body]


def blocks(f):
    out = []
    for x in ast.walk(f):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f:
            continue
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(x, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append((x, fld))
    return out


def do_temp(f, rng):
    k = [0]
    for x, fld in blocks(f):
        new = []
        for s in getattr(x, fld):
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
                v = s.value
                for _ in range(2):
                    if isinstance(v, ast.BinOp):
                        t = '_tmp%d' % k[0]
                        k[0] += 1
                        # operands are evaluated left to right: hoist the left one
                        new.append(ast.Assign([ast.Name(t, ast.Store())], v.left, lineno=s.lineno, col_offset=0))
                        v.left = ast.Name(t, ast.Load())
                        v = v.right
                    elif isinstance(v, ast.Call) and v.args and isinstance(v.func, (ast.Name, ast.Attribute)) and not isinstance(v.args[0], ast.Starred) \
                            and not (isinstance(v.func, ast.Attribute) and has(v.func, ast.Call)) and not isinstance(v.args[0], (ast.GeneratorExp, ast.Constant, ast.Name)):
                        t = '_tmp%d' % k[0]
                        k[0] += 1
                        new.append(ast.Assign([ast.Name(t, ast.Store())], v.args[0], lineno=s.lineno, col_offset=0))
                        v.args[0] = ast.Name(t, ast.Load())
                        break
                    else:
                        break
            new.append(s)
        setattr(x, fld, new)


def do_invert(f, rng):
    for x in ast.walk(f):
        if isinstance(x, ast.If) and x.orelse and not (len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If)):
            x.test = ast.UnaryOp(ast.Not(), x.test)
            x.body, x.orelse = x.orelse, x.body


def do_elsify(f, rng):
    """if c: return A; rest  ->  if c: return A else: rest"""
    for x, fld in blocks(f):
        b = getattr(x, fld)
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and fld == 'body' and x is f:
                s.orelse = b[i + 1:]
                setattr(x, fld, b[:i + 1])
                break


def do_noop(f, rng):
    for x, fld in blocks(f):
        if x is f and fld == 'body':
            b = getattr(x, fld)
            i = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
            b[i:i] = ast.parse('_unused = None').body
            j = rng.randrange(i, len(b))
            b[j:j] = ast.parse('if False:\n    pass').body
    b = f.body
    j = rng.randrange(1, len(b)) if len(b) > 1 else 0
    b[j:j] = ast.parse('pass').body


def do_commute(f, rng):
    for x in ast.walk(f):
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) and not has(x, ast.List, ast.Tuple, ast.JoinedStr, ast.ListComp) and \
                not any(isinstance(y, ast.Constant) and isinstance(y.value, str) for y in ast.walk(x)):
            x.left, x.right = x.right, x.left


def do_swap(f, rng):
    for x, fld in blocks(f):
        b = getattr(x, fld)
        i = 0
        while i + 1 < len(b):
            p, q = b[i], b[i + 1]
            if isinstance(p, ast.Assign) and isinstance(q, ast.Assign) and simple(p) and simple(q) and \
                    not (names(p, ast.Store) & (names(q, ast.Load) | names(q, ast.Store))) and not (names(q, ast.Store) & names(p, ast.Load)):
                b[i], b[i + 1] = q, p
                i += 1
            i += 1


PURE = ('np.', 'falco.util.', 'util.', 'pad_crop', 'fp.', 'int', 'float', 'len', 'range')


def simple(s):
    if not all(isinstance(t, ast.Name) for t in s.targets):
        return False
    for c in ast.walk(s.value):
        if isinstance(c, ast.Call) and not ast.unparse(c.func).startswith(PURE):
            return False
        if isinstance(c, (ast.Lambda, ast.Await, ast.Yield)):
            return False
        if isinstance(c, ast.Call) and '.random' in ast.unparse(c.func):
            return False
    return True


def do_comp(f, rng):
    k = [0]
    for x, fld in blocks(f):
        new = []
        for s in getattr(x, fld):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) \
                    and len(s.value.generators) == 1 and not (names(s.value, ast.Load) & {s.targets[0].id}):
                g = s.value.generators[0]
                m = {n: n + '_lc' for n in names(g.target, ast.Store)}
                nm = s.targets[0].id
                rn = Rename(m)
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [rn.visit(s.value.elt)], []))]
                for c in reversed(g.ifs):
                    body = [ast.If(rn.visit(c), body, [])]
                new.append(ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load()), lineno=s.lineno, col_offset=0))
                new.append(ast.For(rn.visit(g.target), g.iter, body, [], lineno=s.lineno, col_offset=0))
            else:
                new.append(s)
        setattr(x, fld, new)


def do_while(f, rng):
    for x, fld in blocks(f):
        new = []
        for s in getattr(x, fld):
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) \
                    and s.iter.func.id == 'range' and len(s.iter.args) <= 2 and not s.orelse and not has(s, ast.Continue, ast.Break) \
                    and s.target.id not in set().union(*[names(b, ast.Store) for b in s.body]):
                lo, hi = (ast.Constant(0), s.iter.args[0]) if len(s.iter.args) == 1 else s.iter.args
                if has(hi, ast.Call):
                    new.append(s)
                    continue
                i = s.target.id
                new.append(ast.Assign([ast.Name(i, ast.Store())], lo, lineno=s.lineno, col_offset=0))
                w = ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [hi]),
                              s.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])
                new.append(w)
            else:
                new.append(s)
        setattr(x, fld, new)


def do_helper(f, rng, tree, mod):
    """Extract a run of top-level statements into a new module-level function."""
    b = f.body
    n = len(b)
    if n < 4 or has(f, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom):
        return None
    nested = {x.name for x in b if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
    start = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
    best = None
    for _ in range(30):
        i = rng.randrange(start, n - 1)
        j = min(n, i + rng.randrange(2, 9))
        run = b[i:j]
        if any(has(s, ast.Return, ast.Delete, ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.Import, ast.ImportFrom, ast.Yield) for s in run):
            continue
        if any(isinstance(x, ast.NamedExpr) for s in run for x in ast.walk(s)):
            continue
        src = ast.unparse(ast.Module(run, []))
        if 'super(' in src or '__class__' in src or 'locals(' in src or nested & set().union(*[names(s, ast.Load) for s in run]):
            continue
        best = (i, j, run)
        break
    if best is None:
        return None
    i, j, run = best
    args = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs] + ([f.args.vararg.arg] if f.args.vararg else []) + \
        ([f.args.kwarg.arg] if f.args.kwarg else [])
    before = set(args)
    definite = set(args)
    for s in b[:i]:
        before |= names(s, ast.Store)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                definite |= names(t, ast.Store)
    load = set().union(*[names(s, ast.Load) for s in run])
    store = set().union(*[names(s, ast.Store) for s in run])
    # names assigned in comprehension scopes are not locals of the run
    aug = {x.target.id for s in run for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    ins = sorted((load | aug | store) & before)
    if not set(ins) <= definite:
        return None
    after = set().union(*[names(s, ast.Load) for s in b[j:]], set()) | {x.target.id for s in b[j:] for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    outs = sorted(store & after)
    inner_def = set()
    for s in run:
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                inner_def |= names(t, ast.Store)
    if not set(outs) <= inner_def | set(ins):
        return None
    nm = '_part_of_%s' % f.name
    for x in tree.body:
        if isinstance(x, ast.FunctionDef) and x.name == nm:
            return None
    ret = [ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()))] if outs else []
    h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in ins], None, [], [], None, []), run + ret, [], None, type_params=[])
    call = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(a, ast.Load()) for a in ins], [])
    if outs:
        st = ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())], call)
    else:
        st = ast.Expr(call)
    f.body = b[:i] + [st] + b[j:]
    return h


def main():
    out, modes = sys.argv[1], sys.argv[2].split(',')
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    if os.path.exists(out):
        shutil.rmtree(out)
    shutil.copytree(SRC, out, ignore=shutil.ignore_patterns('__pycache__', 'data', '.git', 'docs'))
    n = 0
    for d, _, fs in os.walk(out + '/falco'):
        if '/proper' in d:
            continue
        for fn in fs:
            if not fn.endswith('.py'):
                continue
            p = os.path.join(d, fn)
            with open(p) as fh:
                tree = ast.parse(fh.read())
            helpers = []
            for f in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
                for m in modes:
                    if m == 'helper':
                        if f in tree.body:
                            h = do_helper(f, rng, tree, fn)
                            if h is not None:
                                helpers.append(h)
                                n += 1
                    else:
                        globals()['do_' + m](f, rng)
                        n += 1
            tree.body.extend(helpers)
            ast.fix_missing_locations(tree)
            with open(p, 'w') as fh:
                fh.write(ast.unparse(tree) + '\n')
    print(n, 'rewrites')


if __name__ == '__main__':
    main()

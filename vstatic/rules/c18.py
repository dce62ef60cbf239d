"""C18: configuration files are evaluated lazily, safely and without side effects."""
import ast

from .. import selftest
from ..frames import param_writes
from . import specbased
from .c24 import own, own_top

R1 = 'busy-while-evaluating'
R2 = 'library-untouched'
R3 = 'safe-loader'
R4 = 'arguments-untouched'
R5 = 'equals-reference'
R6 = 'nothing-remembered'
R7 = 'copies-see-the-copy'

KW = {
    'falco.config.Object.Object.__getattr__': {'outs': ('return', 'self.data')},
    'falco.config.Object.Object.__setitem__': {'outs': ('self.data',)},
    'falco.config.yaml_loader.object_constructor': {'outs': ('return()',)},
    'falco.config.yaml_loader._eval_constructor': {'outs': ('return()',), 'refuses': False},
}
SAFE = {'SafeLoader', 'CSafeLoader', 'BaseLoader', 'CBaseLoader'}
UNSAFE_CALLS = {'unsafe_load', 'unsafe_load_all', 'full_load', 'full_load_all'}
REGISTER = {'add_constructor', 'add_multi_constructor', 'add_implicit_resolver', 'add_path_resolver', 'add_representer', 'add_multi_representer'}
TABLES = {'yaml_constructors', 'yaml_multi_constructors', 'yaml_implicit_resolvers', 'yaml_path_resolvers', 'yaml_representers'}
# what the functions that handle the configuration may write of their arguments
WRITES = {'__init__': ('self', ''), '__setitem__': ('self', ''), '__setattr__': ('self', ''), '__delitem__': ('self', ''), '__setstate__': ('self', ''),
          'merge': ('self', ''), 'evaluate': ('self', '')}
CACHES = {'lru_cache', 'cache', 'cached_property', 'memoize'}
PACKAGE = 'falco.config.'
OUTSIDE = ('falco.config.init_from_mat.',)


class Flow:
    """Abstract execution of one flag: what it is when `eval` runs and at every exit."""

    def __init__(self, cls_methods, functions, flag, selfname='self'):
        self.methods, self.functions, self.flag = cls_methods, functions, flag
        self.evals = set()             # flag values at an evaluation, with its node
        self.depth = 0

    # a state is (flag, frozenset of (local, value))
    def value(self, e, st):
        if isinstance(e, ast.Constant) and (isinstance(e.value, bool) or e.value is None):
            return bool(e.value)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.attr == self.flag:
            return st[0]
        if isinstance(e, ast.Name):
            return dict(st[1]).get(e.id)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.value(e.operand, st)
            return None if v is None else not v
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            a, b = self.value(e.left, st), self.value(e.comparators[0], st)
            if a is None or b is None:
                return None
            return (a == b) == isinstance(e.ops[0], (ast.Eq, ast.Is))
        if isinstance(e, ast.BoolOp):
            vs = [self.value(x, st) for x in e.values]
            if isinstance(e.op, ast.And):
                return False if False in vs else (None if None in vs else True)
            return True if True in vs else (None if None in vs else False)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant) \
                and e.args[1].value == self.flag:
            return st[0]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1:
            return self.value(e.args[0], st)
        return None

    def callee(self, c):
        if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in ('self', 'cls') and c.func.attr in self.methods:
            return self.methods[c.func.attr]
        if isinstance(c.func, ast.Name) and c.func.id in self.functions and c.func.id != 'eval':
            return self.functions[c.func.id]
        return None

    def expr(self, n, st, yb):
        """States after evaluating the calls of a statement or expression, states in which it raises."""
        nxt, exc = {st}, set()
        calls = [x for x in own(n) if isinstance(x, ast.Call)]
        if calls or any(isinstance(x, (ast.Subscript, ast.BinOp)) for x in own(n)):
            exc |= {st}
        for c in calls:
            if isinstance(c.func, ast.Name) and c.func.id in ('eval', 'exec') or (isinstance(c.func, ast.Attribute) and c.func.attr in ('eval', 'exec')
                                                                                  and isinstance(c.func.value, ast.Name) and c.func.value.id == 'builtins'):
                self.evals |= {(s[0], c) for s in nxt}
                exc |= nxt
                continue
            if isinstance(c.func, ast.Name) and c.func.id == 'setattr' and len(c.args) == 3 and isinstance(c.args[1], ast.Constant) and c.args[1].value == self.flag:
                nxt = {(self.value(c.args[2], s), s[1]) for s in nxt}
                continue
            f = self.callee(c)
            if f is not None and self.depth < 6:
                self.depth += 1
                out = set()
                for s in nxt:
                    r = self.block(f.body, (s[0], frozenset()), None)
                    out |= {(x[0], s[1]) for x in r['next'] | r['ret']}
                    exc |= {(x[0], s[1]) for x in r['exc']}
                nxt = out
                self.depth -= 1
        return nxt, exc

    def block(self, body, st, yb):
        res = {'next': {st}, 'exc': set(), 'ret': set(), 'brk': set(), 'cont': set()}
        for s in body:
            cur, res['next'] = res['next'], set()
            for x in cur:
                r = self.stmt(s, x, yb)
                for k in res:
                    res[k] |= r.get(k, set())
        return res

    def stmt(self, s, st, yb):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return {'next': {st}}
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield) and yb is not None:
            return yb(st)
        if isinstance(s, ast.Return):
            nxt, exc = self.expr(s, st, yb) if s.value is not None else ({st}, set())
            return {'ret': nxt, 'exc': exc}
        if isinstance(s, ast.Raise):
            return {'exc': {st}}
        if isinstance(s, ast.Break):
            return {'brk': {st}}
        if isinstance(s, ast.Continue):
            return {'cont': {st}}
        if isinstance(s, ast.If):
            nxt, exc = self.expr(s.test, st, yb)
            res = {'exc': set(exc)}
            for x in nxt:
                v = self.value(s.test, x)
                for br, want in ((s.body, True), (s.orelse, False)):
                    if v is None or v == want:
                        merge(res, self.block(br, x, yb))
            return res
        if isinstance(s, (ast.For, ast.While)):
            head = s.iter if isinstance(s, ast.For) else s.test
            res = {}
            seen, todo = set(), {st}
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                nxt, exc = self.expr(head, x, yb)
                merge(res, {'exc': exc})
                for y in nxt:
                    v = self.value(head, y) if isinstance(s, ast.While) else None
                    if v is not True:
                        merge(res, self.block(s.orelse, y, yb))
                    if v is not False:
                        r = self.block(s.body, y, yb)
                        merge(res, {'exc': r['exc'], 'ret': r['ret'], 'next': r['brk']})
                        todo |= (r['next'] | r['cont']) - seen
            return res
        if isinstance(s, ast.Try):
            r = self.block(s.body, st, yb)
            out = {k: set(v) for k, v in r.items()}
            if s.handlers and r['exc']:
                out['exc'] = set()
                sure = False
                for h in s.handlers:
                    for x in r['exc']:
                        merge(out, self.block(h.body, x, yb))
                    sure = sure or h.type is None or (isinstance(h.type, ast.Name) and h.type.id == 'BaseException')
                if not sure:
                    out['exc'] |= r['exc']
            if s.orelse:
                nx, out['next'] = r['next'], out['next'] - r['next']
                for x in nx:
                    merge(out, self.block(s.orelse, x, yb))
            if s.finalbody:
                fin = {}
                for k, xs in out.items():
                    for x in xs:
                        f = self.block(s.finalbody, x, yb)
                        merge(fin, {k: f['next'], 'exc': f['exc'], 'ret': f['ret'], 'brk': f['brk'], 'cont': f['cont']})
                out = fin
            return out
        if isinstance(s, ast.With):
            return self.withs(s, s.items, st, yb)
        nxt, exc = self.expr(s, st, yb)
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            out = set()
            for x in nxt:
                v = self.value(s.value, x)
                flag, loc = x[0], dict(x[1])
                for t in ts:
                    if isinstance(t, ast.Attribute) and t.attr == self.flag:
                        flag = v
                    elif isinstance(t, ast.Name):
                        loc[t.id] = v
                out.add((flag, frozenset(loc.items())))
            nxt = out
        return {'next': nxt, 'exc': exc}

    def withs(self, s, items, st, yb):
        if not items:
            return self.block(s.body, st, yb)
        c = items[0].context_expr
        f = self.callee(c) if isinstance(c, ast.Call) else None
        rest = items[1:]
        if f is not None and any('contextmanager' in ast.unparse(d) for d in f.decorator_list):
            done = {}

            def body(x):
                r = self.withs(s, rest, (x[0], st[1]), yb)
                # leaving by return, break or continue runs what follows the yield as well
                for k in ('ret', 'brk', 'cont'):
                    done.setdefault(k, set()).update(r.get(k, set()))
                return {'next': r.get('next', set()) | r.get('ret', set()) | r.get('brk', set()) | r.get('cont', set()), 'exc': r.get('exc', set())}
            r = self.block(f.body, (st[0], frozenset()), body)
            after = {(x[0], st[1]) for x in r['next'] | r['ret']}
            out = {'exc': {(x[0], st[1]) for x in r['exc']}, 'next': after}
            for k in ('ret', 'brk', 'cont'):
                if done.get(k):
                    out[k] = after
            return out
        nxt, exc = self.expr(c, st, yb)
        out = {'exc': exc}
        for x in nxt:
            merge(out, self.withs(s, rest, x, yb))
        return out


def merge(res, r):
    for k, v in r.items():
        res.setdefault(k, set()).update(v)


def flags_of(methods):
    """Attributes that the methods of a class set to a literal truth value."""
    out = set()
    for m in methods.values():
        for n in ast.walk(m):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'}
    return out


def evaluators(mod):
    """(class, methods, functions of the module, entry methods) of classes of the module that evaluate code."""
    functions = {n.name: n for n in mod.tree.body if isinstance(n, ast.FunctionDef)}
    for c in mod.tree.body:
        if not isinstance(c, ast.ClassDef):
            continue
        methods = {n.name: n for n in c.body if isinstance(n, ast.FunctionDef)}
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('eval', 'exec') for m in list(methods.values()) + list(functions.values())
               for x in ast.walk(m)) and 'evaluate' in methods:
            yield c, methods, functions


def busy(mod, report, okay, undecided):
    n = 0
    for c, methods, functions in evaluators(mod):
        n += 1
        name = mod.name + '.' + c.name + '.evaluate'
        fl = flags_of(methods)
        if not fl:
            undecided(name, 'no flag found')
            continue
        verdicts = []
        for flag in sorted(fl):
            bad = []
            for first in (False, True):
                f = Flow(methods, functions, flag)
                r = f.block(methods['evaluate'].body, (first, frozenset()), None)
                if first:
                    if any(v is not False for v, _ in f.evals):
                        bad.append('the expression is evaluated although its evaluation is in progress')
                else:
                    if any(v is not True for v, _ in f.evals):
                        bad.append('the expression is evaluated without being marked as in progress')
                    if any(x[0] is not False for x in r['next'] | r['ret']):
                        bad.append('it stays marked as in progress after it was evaluated')
                    if any(x[0] is not False for x in r['exc']):
                        bad.append('it stays marked as in progress after its evaluation failed')
                    if not f.evals:
                        bad.append('the expression is not evaluated')
            verdicts.append(bad)
        best = min(verdicts, key=len)
        if best:
            for b in best:
                report(R1, name + ': ' + b, mod, methods['evaluate'], b)
        else:
            okay(R1, name)
    return n


def imports(mod):
    out = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                out[a.asname or a.name] = '%s.%s' % (n.module or '', a.name)
    return out


def class_of(name, f, repo, depth=0):
    """Where the class that this expression names comes from: ('local', ClassDef), ('shared', text), None."""
    if depth > 5:
        return None
    e = name
    if isinstance(e, ast.Attribute):
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        return ('shared', ast.unparse(e)) if isinstance(root, ast.Name) and root.id in imports(f.mod) else None
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 3:
            return ('local', e)
        if isinstance(e.func, ast.Name):
            g = repo.funcs.get(f.mod.name + '.' + e.func.id)
            if g is not None:
                outs = [class_of(r.value, g, repo, depth + 1) for r in own_top(g.node) if isinstance(r, ast.Return) and r.value is not None]
                return outs[0] if outs and all(o == outs[0] for o in outs) else None
        return None
    if not isinstance(e, ast.Name):
        return None
    fn = f
    while fn is not None:
        for n in ast.walk(fn.node):
            if isinstance(n, ast.ClassDef) and n.name == e.id:
                return ('local', n)
        for n in own_top(fn.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                return class_of(n.value, fn, repo, depth + 1)
        if e.id in fn.args:
            got = []
            for g in list(repo.funcs.values()):
                if g.mod is not fn.mod:
                    continue
                for c in own_top(g.node):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == fn.name:
                        k = fn.args.index(e.id)
                        a = c.args[k] if k < len(c.args) else next((x.value for x in c.keywords if x.arg == e.id), None)
                        got.append(class_of(a, g, repo, depth + 1) if a is not None else None)
            for w in got:
                if w is not None and w[0] == 'shared':
                    return w
            return got[0] if got and all(got) else None
        fn = repo.funcs.get(fn.qual.rpartition('.<locals>.')[0]) if '.<locals>.' in fn.qual else None
    for n in f.mod.tree.body:
        if isinstance(n, ast.ClassDef) and n.name == e.id:
            return ('shared', e.id)
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
            return ('shared', e.id)
    if e.id in imports(f.mod):
        return ('shared', e.id)
    return None


def bases_of(node):
    bs = node.bases if isinstance(node, ast.ClassDef) else (node.args[1].elts if isinstance(node, ast.Call) and isinstance(node.args[1], (ast.Tuple, ast.List)) else [])
    return [ast.unparse(b).split('.')[-1] for b in bs]


def library(funcs, repo, report, okay, undecided, count):
    for f in funcs:
        bad = 0
        fresh = set()
        nodes = list(own_top(f.node))
        nodes += [n for n in ast.walk(f.node) if isinstance(n, ast.ClassDef) and n not in nodes]
        for n in nodes:
            if isinstance(n, ast.ClassDef):
                for s in n.body:
                    if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Call, ast.Dict)):
                        fresh |= {(n.name, t.id) for t in s.targets if isinstance(t, ast.Name) and t.id in TABLES}
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Call, ast.Dict)):
                fresh |= {(t.value.id, t.attr) for t in n.targets if isinstance(t, ast.Attribute) and t.attr in TABLES and isinstance(t.value, ast.Name)}
            if isinstance(n, ast.ClassDef) and any(b.endswith('Loader') or b.endswith('Constructor') for b in bases_of(n)):
                count('loader_classes')
                if not any(b in SAFE for b in bases_of(n)):
                    bad += 1
                    report(R3, '%s derives a loader from %s' % (f.qual, ', '.join(bases_of(n))), f.mod, n,
                           '%s reads configuration files with a loader that can build any object (%s)' % (f.qual, ', '.join(bases_of(n))))
        for n in nodes:
            if isinstance(n, ast.Call):
                fn = n.func
                tail = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
                isyaml = isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and imports(f.mod).get(fn.value.id) == 'yaml'
                if tail in UNSAFE_CALLS and (isyaml or isinstance(fn, ast.Name)):
                    bad += 1
                    report(R3, '%s calls %s' % (f.qual, tail), f.mod, n, '%s reads a document with a loader that can build any object' % f.qual)
                if tail == 'load' and isyaml:
                    count('loads')
                    ld = next((k.value for k in n.keywords if k.arg == 'Loader'), n.args[1] if len(n.args) > 1 else None)
                    if ld is not None and isinstance(ld, ast.Attribute) and ld.attr.endswith('Loader') and ld.attr not in SAFE:
                        bad += 1
                        report(R3, '%s loads with %s' % (f.qual, ld.attr), f.mod, n, '%s reads a document with a loader that can build any object' % f.qual)
                if tail in REGISTER:
                    count('registrations')
                    if isyaml:
                        recv = next((k.value for k in n.keywords if k.arg in ('Loader', 'Dumper')), n.args[2] if len(n.args) > 2 else None)
                        w = class_of(recv, f, repo) if recv is not None else ('shared', 'every loader of the library')
                    else:
                        w = class_of(fn.value, f, repo) if isinstance(fn, ast.Attribute) else None
                    if w is None:
                        undecided(f.qual, 'receiver of %s' % tail)
                    elif w[0] == 'shared':
                        bad += 1
                        report(R2, '%s registers on %s' % (f.qual, w[1]), f.mod, n, '%s registers a constructor on %s, which outlives the loading' % (f.qual, w[1]))
            targets = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in targets:
                tab = t.value if isinstance(t, ast.Subscript) else t
                if isinstance(tab, ast.Attribute):
                    inplace = isinstance(t, ast.Subscript) or isinstance(n, ast.AugAssign)
                    if tab.attr in TABLES:
                        w = class_of(tab.value, f, repo)
                        key = (ast.unparse(tab.value), tab.attr)
                        if (w is not None and w[0] == 'shared') or (inplace and key not in fresh):
                            bad += 1
                            report(R2, '%s writes %s' % (f.qual, ast.unparse(tab)), f.mod, n, '%s writes the constructor table of a loader class of the library' % f.qual)
                    else:
                        root = tab
                        while isinstance(root, (ast.Attribute, ast.Subscript)):
                            root = root.value
                        if isinstance(root, ast.Name) and root.id in imports(f.mod) and not local_name(f, root.id):
                            bad += 1
                            report(R2, '%s writes %s' % (f.qual, ast.unparse(tab)), f.mod, n, '%s changes %s, which outlives the loading' % (f.qual, ast.unparse(tab)))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('update', 'setdefault', 'pop', 'clear') and \
                    isinstance(n.func.value, ast.Attribute) and n.func.value.attr in TABLES:
                w = class_of(n.func.value.value, f, repo)
                if (w is not None and w[0] == 'shared') or (ast.unparse(n.func.value.value), n.func.value.attr) not in fresh:
                    bad += 1
                    report(R2, '%s writes %s' % (f.qual, ast.unparse(n.func.value)), f.mod, n, '%s writes the constructor table of a loader class of the library' % f.qual)
        if not bad:
            okay(R2, f.qual)
            okay(R3, f.qual)


def local_name(f, name):
    if name in f.args + f.kwonly:
        return True
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in own_top(f.node))


def arguments(funcs, S, report, okay, undecided):
    for f in funcs:
        s = S.get(f)
        if s is None or s.error:
            undecided(f.qual, 'not analysed')
            continue
        bad = 0
        for p, path, inpl, e in param_writes(f, s):
            w = WRITES.get(f.name)
            if w is not None and p == w[0] and path.startswith(w[1]):
                continue
            if p == 'self' and f.name.startswith('__') and path == 'data' and not inpl:
                # reading a parameter may create the table, never an entry of it
                continue
            if p == 'self' and f.name.startswith('_') and not f.name.startswith('__') and f.cls is not None:
                continue
            bad += 1
            report(R4, '%s writes %s%s' % (f.qual, p, path and '.' + path), f.mod, e.node, '%s changes its argument %s' % (f.qual, p))
        if not bad:
            okay(R4, f.qual)
        if any(ast.unparse(d).split('(')[0].split('.')[-1] in CACHES for d in f.node.decorator_list):
            report(R6, '%s keeps its results' % f.qual, f.mod, f.node, '%s remembers what an earlier call gave' % f.qual)
        else:
            okay(R6, f.qual)


def copies(funcs, S, report, okay, undecided):
    for f in funcs:
        if f.name != '__deepcopy__' or f.cls is None:
            continue
        s = S.get(f)
        made = [c for c in s.interp.calls if c.func is f and c.qual and c.qual.split('.')[-1] == f.qual.split('.')[-2] and len(c.args) + len(c.kw or ()) >= 3]
        if not made:
            undecided(f.qual, 'the copy is not made by calling the class')
            continue
        deep = {c.result for c in s.interp.calls if c.qual == 'copy.deepcopy' and len(c.args) + len(c.kw or ()) == 2
                and any(x.op == 'param' and x.a[1] == f.args[1] for x in list(c.args) + [v for _, v in c.kw or ()])}
        for c in made:
            kw = dict(c.kw or ())
            v = kw.get('locals', c.args[1] if len(c.args) > 1 else None)
            st = s.result.state
            if v is not None and (v in deep or any(s.interp.val(d, st) is s.interp.val(v, st) and v.op != 'attr' for d in deep)):
                okay(R7, f.qual)
            else:
                report(R7, f.qual + ' keeps the original names', f.mod, c.node, 'a copied expression would be evaluated against the parameters it was copied from')


def run(ctx, rep):
    rep.rule(R1, 'the in-progress flag of a deferred expression is set whenever its code runs, cleared on every exit including exceptions, and refuses when found set')
    rep.rule(R2, 'constructors are registered only on a class created by the call that loads; nothing of an imported library is written')
    rep.rule(R3, 'every loader derives from the safe loader of the YAML library')
    rep.rule(R4, 'the functions that load and read configurations write none of their arguments, the object under construction aside')
    rep.rule(R5, 'what loading and reading compute is what the reference definition computes')
    rep.rule(R6, 'no function of the configuration package remembers earlier results')
    funcs = [f for f in ctx.repo.analysed() if f.qual.startswith(PACKAGE) and not f.qual.startswith(OUTSIDE)]
    judged = [f for f in funcs if not ctx.is_new(f.qual)]

    def report(rule, construct, mod, node, msg):
        rep.bad(rule, construct, '%s:%d' % (mod.rel, getattr(node, 'lineno', 0)), msg)

    def undecided(rule):
        return lambda q, why: rep.undecided_at(rule, q, why)
    rep.rule(R7, 'a deep copy of a deferred expression refers to the deep copy, made with the same memo, of the parameters it is evaluated against')
    copies(judged, ctx.S, report, rep.ok, undecided(R7))
    n = 0
    for m in ctx.repo.mods.values():
        if m.name.startswith('falco.config'):
            n += busy(m, report, rep.ok, undecided(R1))
    rep.count('evaluators', n)
    rep.floor('evaluators', 1)
    library(funcs, ctx.repo, report, rep.ok, undecided(R2), rep.count)
    rep.floor('loader_classes', 1)
    rep.floor('registrations', 2)
    arguments(judged, ctx.S, report, rep.ok, undecided(R4))
    rep.count('functions', len(funcs))
    rep.floor('functions', 25)
    specbased.run_refs(ctx, rep, 'c18', R5, 10, **KW)
    specbased.positives(ctx, rep, 'C18', 'c18', **KW)
    found = set()
    r, S = selftest.posrepo()
    pf = selftest.posfuncs('c18')

    def emit(rule, construct, mod, node, msg):
        found.add(construct.split(' ')[0].split(':')[0].rsplit('.', 1)[-1])
    library(pf, r, emit, lambda *a: None, lambda *a: None, lambda *a: None)
    arguments(pf, S, emit, lambda *a: None, lambda *a: None)
    copies(pf, S, lambda rule, c, m, n, msg: found.add(c.split('.')[-2]), lambda *a: None, lambda *a: None)
    seen = set()
    m = r.mods['posex.c18flags']

    def emitc(rule, construct, mod, node, msg):
        seen.add(construct.split('.')[-2])
    busy(m, emitc, lambda *a: None, lambda *a: None)
    names = {f.qual.split('.')[-2] for f in pf if f.cls}
    selftest.expect(rep, 'C18', found, {x for x in names if x.startswith('Bad')})
    good = {f.name for f in pf if f.name.startswith('bad_')}
    selftest.expect(rep, 'C18', found, good)
    if any(x.lower().startswith('good') for x in found):
        from ..loader import AnalysisBroken
        raise AnalysisBroken('negative examples of C18 reported: %s' % sorted(found))
    names = {c.name for c, _, _ in evaluators(m)}
    selftest.expect(rep, 'C18', seen, {x for x in names if x.startswith('Bad')})
    if {x for x in seen if x.startswith('Good')}:
        from ..loader import AnalysisBroken
        raise AnalysisBroken('negative examples of C18 reported: %s' % sorted(seen))

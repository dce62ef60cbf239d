"""C24: detected errors are raised and computed results are used."""
import ast
import builtins

from .. import selftest
from . import c09

R1 = 'handlers-end-in-raise'
R2 = 'exceptions-leave-finally'
R3 = 'errors-are-raised'
R4 = 'no-result-dropped'
R5 = 'detected-errors-refuse'

# a handler that goes on by design, confirmed by reading
HANDLER_OK = {
    'falco.mkl_fft.load_libmkl': 'tries the library named in the environment, then the default one, whose absence raises',
}
NARROW = {'KeyError', 'AttributeError', 'IndexError', 'StopIteration', 'ImportError', 'ModuleNotFoundError', 'LookupError'}
EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

# numpy and scipy functions whose call is not only for its result
IMPURE = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'seterr', 'seterrcall', 'set_printoptions', 'save', 'savez', 'savetxt',
          'savez_compressed', 'seed', 'shuffle', 'at', 'show', 'show_config', 'setbufsize', 'info', 'test', 'savemat', 'set_state', 'setflags', 'main',
          'broadcast_shapes', 'broadcast', 'nditer', 'load', 'asanyarray_chkfinite', 'asarray_chkfinite', 'ndindex', 'errstate'}
PURE_BUILTINS = {'sorted', 'map', 'filter', 'zip', 'reversed', 'abs', 'min', 'max', 'sum', 'round', 'len', 'enumerate', 'tuple', 'list', 'dict', 'set',
                 'str', 'bool', 'complex', 'isinstance', 'range', 'any', 'all', 'pow', 'divmod'}
PURE_METHODS = {'copy', 'reshape', 'flatten', 'ravel', 'astype', 'transpose', 'conj', 'conjugate', 'lower', 'upper', 'strip', 'clip', 'round', 'dot', 'sum',
                'prod', 'mean', 'cumsum', 'repeat', 'squeeze', 'swapaxes', 'toarray', 'tolist', 'nonzero', 'argmax', 'argmin', 'argsort', 'max', 'min',
                'any', 'all', 'split', 'startswith', 'endswith', 'format', 'keys', 'values', 'items', 'get', 'union', 'intersection', 'difference', 'is_dir',
                'is_file', 'exists', 'todense', 'diagonal', 'trace', 'std', 'var'}
LATER = {'apply_async', 'map_async', 'starmap_async', 'submit', 'imap', 'imap_unordered'}


def ends_in_raise(body):
    """Every path through these statements leaves by an exception."""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
        if isinstance(s, ast.If) and s.orelse and ends_in_raise(s.body) and ends_in_raise(s.orelse):
            return True
        if isinstance(s, ast.With) and ends_in_raise(s.body):
            return True
        if isinstance(s, ast.Try) and (ends_in_raise(s.finalbody) or (ends_in_raise(s.body) and all(ends_in_raise(h.body) for h in s.handlers))):
            return True
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in own(s)):
            return False
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute)) \
                and ast.unparse(s.value.func) in ('sys.exit', 'os._exit', 'exit', 'quit', 'os.abort'):
            return True
    return False


def own(n):
    """Nodes below n without nested functions and classes."""
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)


def names_of(t):
    if t is None:
        return {'everything'}
    return {ast.unparse(x).split('.')[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])}


def only_looks_up(body):
    """Nothing but names, attributes, items and literals: the failure of one look-up is the whole content of the exception."""
    return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.For, ast.While, ast.With)) and not lookup(x) for s in body for x in own(s))


def lookup(x):
    return isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in ('getattr', 'next', 'iter', 'len', 'float', 'int') or
                                        isinstance(x.func, ast.Attribute) and x.func.attr in ('index', 'lower', 'upper', 'get'))


def only_imports(body):
    return all(isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass)) or isinstance(s, ast.Expr) and (
        isinstance(s.value, ast.Constant) or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'print')
               or isinstance(s, ast.Assign) and isinstance(s.value, (ast.Constant, ast.Name, ast.Attribute)) for s in body)


def handlers(node, qual):
    """(handler, why it may go on or None) of every handler in a function or module body."""
    k = 0
    for n in sorted((x for x in own_top(node) if isinstance(x, ast.Try)), key=lambda x: x.lineno):
        for h in n.handlers:
            if ends_in_raise(h.body):
                yield h, 'raises'
            elif only_imports(n.body):
                yield h, 'import'
            elif names_of(h.type) <= NARROW and only_looks_up(n.body):
                yield h, 'look-up'
            elif names_of(h.type) <= {'TypeError', 'ValueError'} | NARROW and only_looks_up(n.body):
                yield h, 'look-up'
            elif qual in HANDLER_OK and not k:
                k = 1
                yield h, 'table'
            else:
                yield h, None


def own_top(node):
    for c in ast.iter_child_nodes(node):
        if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            yield from own(c)


def leaves_finally(node):
    """return, break or continue that discards the exception in flight."""
    for n in own_top(node):
        if isinstance(n, ast.Try):
            for s in n.finalbody:
                yield from discards(s, False)


def discards(s, loop):
    if isinstance(s, ast.Return) or isinstance(s, (ast.Break, ast.Continue)) and not loop:
        yield s
    for c in ast.iter_child_nodes(s):
        if isinstance(c, ast.stmt) and not isinstance(c, (ast.FunctionDef, ast.ClassDef)) or isinstance(c, ast.ExceptHandler):
            yield from discards(c, loop or isinstance(s, (ast.For, ast.While)))


def is_exception(n, mod_names=()):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in EXC and not n.func.id.endswith('Warning')


def unraised(node, raisers, name):
    """Exception objects that are made and not raised."""
    parent = {}
    for n in own_top(node):
        for c in ast.iter_child_nodes(n):
            parent[c] = n
    raised = {x.id for n in own_top(node) if isinstance(n, ast.Raise) and n.exc is not None for x in ast.walk(n.exc) if isinstance(x, ast.Name)}
    for n in own_top(node):
        if not is_exception(n):
            continue
        p = parent.get(n)
        while isinstance(p, (ast.IfExp, ast.NamedExpr, ast.Tuple, ast.List, ast.Dict, ast.Subscript, ast.Starred)) or \
                isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == 'with_traceback' or isinstance(p, ast.Attribute):
            p = parent.get(p)
        if isinstance(p, ast.Raise):
            continue
        if isinstance(p, (ast.Assign, ast.AnnAssign)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            if any(isinstance(x, ast.Name) and x.id in raised for t in ts for x in ast.walk(t)):
                continue
        if isinstance(p, ast.Return) and name in raisers:
            continue
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ('throw', 'set_exception'):
            continue
        yield n


def raisers_of(trees):
    """Functions whose result is raised by every caller."""
    out, other = set(), set()
    for t in trees:
        up = {}
        for n in ast.walk(t):
            for c in ast.iter_child_nodes(n):
                up[c] = n
        for n in ast.walk(t):
            if isinstance(n, ast.Call):
                q = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                if q:
                    (out if isinstance(up.get(n), ast.Raise) else other).add(q)
    return out - other


class Purity:
    """Repository functions called for their result only."""

    def __init__(self, S, repo, new=lambda q: False):
        self.S, self.repo, self.memo, self.new = S, repo, {}, new

    def pure(self, q, depth=0):
        if q not in self.memo:
            self.memo[q] = False
            self.memo[q] = self.compute(q, depth)
        return self.memo[q]

    def compute(self, q, depth):
        f = self.repo.funcs.get(q)
        if f is None or depth > 8 or q.startswith('falco.check.') or q.startswith('falco.proper.') or f.name == '__init__':
            return False
        s = self.S.get(f)
        if s is None or s.error or s.result is None:
            return False
        if s.interp.effects or s.globals or not s.result.exits:
            return False
        if any(x.value is None or (x.value.op == 'const' and x.value.py is None) for x in s.result.exits):
            return False
        if s.ret_alias:
            return False            # hands on what it is given, perhaps a check
        return not (self.new(q) and refuses(f)) and all(self.call(c, depth + 1) for c in s.interp.calls)

    def call(self, c, depth=0):
        q = c.qual
        if not q:
            return False
        if q in self.repo.funcs:
            return depth > 0 and q.startswith('falco.check.') or self.pure(q, depth + 1)
        return pure_ext(c)


def refuses(f):
    """The function may exist for what it refuses."""
    return any(isinstance(n, (ast.Raise, ast.Assert)) or isinstance(n, ast.Call) and ast.unparse(n.func).startswith(('check.', 'falco.check.'))
               for n in own_top(f.node))


def pure_ext(c):
    q = c.qual
    if any(k == 'out' for k, v in c.kw or ()):
        return False
    last = q.split('.')[-1]
    if q.startswith(('numpy.', 'scipy.')) and '.random' not in q and '.io.' not in q and 'scipy.stats' not in q:
        return last not in IMPURE and not last[:1].isupper()
    if q.startswith('.'):
        return last in PURE_METHODS
    return q in PURE_BUILTINS or q in EXC


def decide(funcs, S, repo, raisers, emit, count, new=lambda q: False):
    purity = Purity(S, repo, new)
    for f in funcs:
        bad = 0
        for h, why in handlers(f.node, f.qual):
            count('handlers')
            if why is None:
                bad += 1
                emit(R1, '%s handles %s' % (f.qual, '/'.join(sorted(names_of(h.type)))), f, h,
                     'the handler of %s in %s lets the work go on after a failed step' % ('/'.join(sorted(names_of(h.type))), f.qual))
        for s in leaves_finally(f.node):
            bad += 1
            emit(R2, '%s %s in finally' % (f.qual, type(s).__name__.lower()), f, s, 'the exception in flight is discarded')
        for n in own_top(f.node):
            if isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[-1] == 'suppress' and 'contextlib' in (
                    ast.unparse(n.func) if isinstance(n.func, ast.Attribute) else 'contextlib'):
                bad += 1
                emit(R1, '%s suppresses' % f.qual, f, n, '%s discards the exceptions of a block' % f.qual)
        for n in unraised(f.node, raisers, f.name):
            bad += 1
            emit(R3, '%s makes %s' % (f.qual, n.func.id), f, n, '%s makes a %s and does not raise it' % (f.qual, n.func.id))
        for n in own_top(f.node):
            count('raise_statements', isinstance(n, ast.Raise))
        ip = S.get(f).interp if S.get(f) is not None and not S.get(f).error else None
        if ip is not None:
            by = {}
            for c in ip.calls:
                by.setdefault(id(c.node), []).append(c)
            for n in own_top(f.node):
                if not isinstance(n, ast.Expr):
                    continue
                count('expression_statements')
                what = dropped(n.value, by, purity)
                if what:
                    bad += 1
                    emit(R4, '%s drops %s' % (f.qual, what), f, n, 'the result of %s in %s is computed and dropped' % (what, f.qual))
        emit.done(f, bad)


def dropped(v, by, purity):
    if isinstance(v, (ast.BinOp, ast.Compare, ast.UnaryOp, ast.BoolOp)):
        if any(isinstance(x, ast.Call) and not all(purity.call(c) for c in by.get(id(x), ())) for x in ast.walk(v)):
            return None             # evaluated for a call
        if isinstance(v, ast.BoolOp) or not any(isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)) or isinstance(x, ast.Name) for x in ast.walk(v)):
            return None
        return ast.unparse(v)[:60]
    if isinstance(v, ast.GeneratorExp):
        return 'a generator'
    if isinstance(v, ast.Call):
        cs = by.get(id(v), ())
        if cs and all(purity.call(c) for c in cs):
            return ast.unparse(v.func)[:60]
        if isinstance(v.func, ast.Attribute) and v.func.attr in LATER:
            return ast.unparse(v.func)[:60] + ' (whose failures are never seen)'
    return None


class Emit:
    def __init__(self, rep):
        self.rep = rep

    def __call__(self, rule, construct, f, node, msg):
        self.rep.bad(rule, construct, '%s:%d' % (f.mod.rel, getattr(node, 'lineno', 0)), msg)

    def done(self, f, bad):
        if not bad:
            for r in (R1, R2, R3, R4):
                self.rep.ok(r, f.qual)


class Found(set):
    def __call__(self, rule, construct, f, node, msg):
        self.add(f.name)

    def done(self, f, bad):
        pass


def run(ctx, rep):
    rep.rule(R1, 'every exception handler ends in a raise on all its paths, except around imports and single look-ups')
    rep.rule(R2, 'no return, break or continue in a finally clause discards an exception')
    rep.rule(R3, 'every exception object that is made is raised')
    rep.rule(R4, 'no statement consists of a pure computation only')
    rep.rule(R5, 'the condition under which the function raises equals the documented one')
    funcs = ctx.judged()
    raisers = raisers_of([m.tree for m in ctx.repo.mods.values() if m.name.startswith('falco') and not m.name.startswith('falco.proper')])
    decide(funcs + [f for f in ctx.repo.analysed() if ctx.is_new(f.qual)], ctx.S, ctx.repo, raisers, Emit(rep), rep.count, ctx.is_new)
    c09.all_guards(ctx, rep, R5)
    rep.floor('expression_statements', 400)
    rep.floor('raise_statements', 150)
    rep.floor('handlers', 5)
    found = Found()
    r, S = selftest.posrepo()
    decide(selftest.posfuncs('c24'), S, r, {'bad_'}, found, lambda *a: None)
    selftest.exact(rep, 'C24', 'c24', found)
    rep.assumptions += ['numpy and scipy functions other than the listed ones are called for their result only',
                        'a method named like a pure array, string or dictionary method is that method']

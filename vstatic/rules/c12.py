"""C12: no configuration path runs into an undefined name, bad call or missing function."""
import ast
import builtins
import glob
import json
import os
import re
import symtable
import warnings

from .. import selftest
from ..loader import AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R_DEF = 'defined-before-use'
R_NAME = 'names-exist'
R_MOD = 'module-members-exist'
R_BIND = 'arguments-accepted'
R_EXT = 'external-arguments-accepted'
R_ATTR = 'attributes-exist'
R_PATH = 'parameters-exist'
R_TUPLE = 'unpacking-matches'
SKIP = ('falco.mkl_fft', 'falco.dftidefs', 'falco.data', 'falco.proper')


def load(name):
    with open(os.path.join(HERE, name)) as f:
        return json.load(f)


# ---------------------------------------------------------------- names

def undefined_names(m):
    """Global names that a module's code loads but that nothing binds."""
    out = []
    bound = set(m.scope) | set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__spec__'}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            top = symtable.symtable(m.src, m.rel, 'exec')
    except SyntaxError:
        return out

    def globs(t):
        for s in t.get_symbols():
            if s.is_global() and s.is_assigned():
                bound.add(s.get_name())
        for c in t.get_children():
            globs(c)
    globs(top)
    lines = {}
    for nd in ast.walk(m.tree):
        if isinstance(nd, ast.Name) and isinstance(nd.ctx, ast.Load):
            lines.setdefault(nd.id, []).append(nd.lineno)

    def visit(t, path):
        for s in t.get_symbols():
            n = s.get_name()
            if s.is_referenced() and n not in bound and (s.is_global() or (t.get_type() == 'module' and not s.is_assigned() and not s.is_imported())):
                out.append((path, n, min(lines.get(n, [0]))))
        for c in t.get_children():
            visit(c, path + '.' + c.get_name())
    visit(top, m.name)
    return out


class Members:
    """Resolution of attribute chains that start at an imported module."""

    def __init__(self, repo, ext):
        self.repo, self.ext = repo, ext
        self.imported = set(repo.mods)
        for m in repo.mods.values():
            pass

    def exists(self, mod, attr):
        """(found, next) for attribute `attr` of module `mod`; next = ('mod', name) | None."""
        if mod in self.repo.mods:
            m = self.repo.mods[mod]
            sub = mod + '.' + attr
            if attr in m.scope:
                b = m.scope[attr]
                return True, self.follow(b)
            if sub in self.repo.mods:
                return True, ('mod', sub)
            for s in m.star:
                if s in self.repo.mods:
                    ok, nx = self.exists(s, attr)
                    if ok:
                        return True, nx
                else:
                    return True, None
            if attr.startswith('__'):
                return True, None
            return False, None
        if mod in self.ext:
            sub = mod + '.' + attr
            if attr in self.ext[mod] or sub in self.ext:
                return True, (('mod', sub) if sub in self.ext else None)
            return False, None
        return True, None

    def follow(self, b, depth=0):
        if b[0] == 'mod':
            return ('mod', b[1])
        if b[0] == 'ext':
            return ('mod', b[1]) if b[1] in self.ext else None
        if b[0] == 'from' and depth < 5:
            src, nm = b[1], b[2]
            if src + '.' + nm in self.repo.mods and nm not in self.repo.mods[src].scope:
                return ('mod', src + '.' + nm)
            if src in self.repo.mods and nm in self.repo.mods[src].scope:
                return self.follow(self.repo.mods[src].scope[nm], depth + 1)
        return None


def local_names(fnode):
    out = set()
    a = fnode.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        out.add(x.arg)
    for nd in ast.walk(fnode):
        if isinstance(nd, ast.Name) and isinstance(nd.ctx, (ast.Store, ast.Del)):
            out.add(nd.id)
        elif isinstance(nd, ast.arg):
            out.add(nd.arg)
        elif isinstance(nd, (ast.FunctionDef, ast.ClassDef)) and nd is not fnode:
            out.add(nd.name)
        elif isinstance(nd, (ast.Import, ast.ImportFrom)):
            for al in nd.names:
                out.add((al.asname or al.name).split('.')[0])
        elif isinstance(nd, ast.ExceptHandler) and nd.name:
            out.add(nd.name)
    return out


def chain_of(nd):
    parts = []
    while isinstance(nd, ast.Attribute):
        parts.append((nd.attr, nd))
        nd = nd.value
    return (nd.id, list(reversed(parts))) if isinstance(nd, ast.Name) else (None, [])


def missing_members(m, repo, members):
    out, n = [], 0
    inner = set()
    funcs = []

    def collect(body, qual, shadow):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                sh = shadow | local_names(st)
                funcs.append((qual + '.' + st.name, st, sh))
            elif isinstance(st, ast.ClassDef):
                collect(st.body, qual + '.' + st.name, shadow)
            else:
                funcs.append((qual, st, shadow))
    collect(m.tree.body, m.name, set())
    for qual, fn, shadow in funcs:
        guarded = {id(x) for t in ast.walk(fn) if isinstance(t, ast.Call) and ast.unparse(t.func) in ('hasattr', 'getattr') for x in ast.walk(t)}
        for nd in ast.walk(fn):
            if not isinstance(nd, ast.Attribute) or id(nd) in inner or not isinstance(nd.ctx, ast.Load):
                continue
            base, parts = chain_of(nd)
            for _, p in parts[:-1]:
                inner.add(id(p))
            if base is None or base in shadow or base not in m.scope:
                continue
            cur = members.follow(m.scope[base])
            if cur is None:
                continue
            n += 1
            if id(nd) in guarded:
                continue
            path = base
            for attr, node in parts:
                ok, nx = members.exists(cur[1], attr)
                path += '.' + attr
                if not ok:
                    out.append((qual, path, node.lineno))
                    break
                if nx is None:
                    break
                cur = nx
    return out, n


# ---------------------------------------------------------------- attributes

def attribute_universe(root, ext, repo):
    """Every attribute name that some code or configuration of the tree creates."""
    names = set(ext['__members__'])
    for v in ext.values():
        names |= set(v)
    files = [p for p in glob.glob(os.path.join(root, '**', '*.py'), recursive=True)]
    for p in files:
        try:
            with open(p, encoding='utf-8', errors='replace') as f:
                src = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                t = ast.parse(src)
        except SyntaxError:
            continue
        in_tests = '/tests/' in p
        for nd in ast.walk(t):
            if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Store):
                names.add(nd.attr)
            elif isinstance(nd, (ast.FunctionDef, ast.ClassDef)):
                names.add(nd.name)
            elif isinstance(nd, ast.AnnAssign) and isinstance(nd.target, ast.Name):
                names.add(nd.target.id)
            elif isinstance(nd, ast.Call):
                names |= {k.arg for k in nd.keywords if k.arg}
                if isinstance(nd.func, ast.Name) and nd.func.id == 'setattr' and len(nd.args) > 1 and isinstance(nd.args[1], ast.Constant):
                    names.add(nd.args[1].value)
            elif isinstance(nd, ast.Dict) and not in_tests:
                names |= {k.value for k in nd.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)}
            elif isinstance(nd, ast.Name) and isinstance(nd.ctx, ast.Store):
                pass
    for p in glob.glob(os.path.join(root, '**', '*.y*ml'), recursive=True):
        with open(p, errors='replace') as f:
            names |= set(re.findall(r'^\s*-?\s*([A-Za-z_]\w*)\s*:', f.read(), re.M))
    for m in repo.mods.values():
        names |= set(m.scope)
    return names


MEMBERS = {'shape', 'size', 'copy', 'reshape', 'flatten', 'ravel', 'astype', 'append', 'item', 'lower', 'upper', 'T', 'real', 'imag', 'dtype', 'ndim', 'sum', 'max', 'min',
           'any', 'all', 'mean', 'tolist', 'keys', 'values', 'items', 'get', 'pop', 'transpose', 'conj', 'squeeze', 'update', 'extend', 'index', 'count'}
ROOTS = ('mp', 'modvar', 'ev', 'cvar', 'out', 'jacStruct', 'dm')


def dotted(nd):
    parts = []
    while isinstance(nd, (ast.Attribute, ast.Subscript)):
        if isinstance(nd, ast.Attribute):
            parts.append(nd.attr)
        nd = nd.value
    return '.'.join([nd.id] + parts[::-1]) if isinstance(nd, ast.Name) else None


def read_paths(m):
    """(qual-ish, dotted path, node) of attribute reads through a name that conventionally holds a parameter object."""
    out = []
    for st in ast.walk(m.tree):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            guarded = guarded_paths(st)
            for nd in ast.walk(st):
                if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Load):
                    d = dotted(nd)
                    while d and d.count('.') > 1 and d.split('.')[-1] in MEMBERS:
                        d = d.rsplit('.', 1)[0]
                    if d and d.split('.')[0] in ROOTS and d not in guarded:
                        out.append((m.name + '.' + st.name, d, nd))
    return out


def guarded_paths(fn):
    g = set()
    for nd in ast.walk(fn):
        if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id in ('hasattr', 'getattr') and len(nd.args) >= 2 \
                and isinstance(nd.args[1], ast.Constant):
            d = dotted(nd.args[0]) if not isinstance(nd.args[0], ast.Name) else nd.args[0].id
            if d:
                g.add('%s.%s' % (d, nd.args[1].value))
    return g


def stored_paths(root):
    out = set()
    for p in glob.glob(os.path.join(root, '**', '*.py'), recursive=True):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with open(p, encoding='utf-8', errors='replace') as f:
                    t = ast.parse(f.read())
        except SyntaxError:
            continue
        for nd in ast.walk(t):
            if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Store):
                d = dotted(nd)
                if d:
                    out.add(d)
                    if '.' in d:
                        out.add(d.split('.', 1)[1])
    return out


def path_known(d, known, stored, repo_attrs):
    if d in known or d in stored:
        return True
    tail = d.split('.', 1)[1]
    # any object reached under another local name: mp.dm1.V is known when dm.V is stored
    parts = tail.split('.')
    if 'dm' == d.split('.')[0] and any(s.endswith('.' + tail) and re.search(r'(^|\.)dm\d*\.', s) for s in stored):
        return True
    if len(parts) >= 2 and re.match(r'dm\d$', parts[0]) and ('dm.' + '.'.join(parts[1:])) in stored:
        return True
    return tail in stored


# ---------------------------------------------------------------- unpacking

def tuple_arities(repo):
    """Functions all of whose returns are tuple displays of one length."""
    out = {}
    for q, f in repo.funcs.items():
        rets = [n for n in own_nodes(f.node) if isinstance(n, ast.Return)]
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node)):
            continue
        kinds = set()
        for r in rets:
            if r.value is None:
                kinds.add(None)
            elif isinstance(r.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in r.value.elts):
                kinds.add(len(r.value.elts))
            else:
                kinds.add('?')
        if rets and len(kinds) == 1 and isinstance(next(iter(kinds)), int):
            out[q] = next(iter(kinds))
        elif not rets and not body_only_raises(f.node):
            out[q] = 'none'
        elif kinds == {None}:
            out[q] = 'none'
    return out


def body_only_raises(fn):
    return any(isinstance(s, ast.Raise) for s in fn.body)


def own_nodes(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def unpack_sites(f):
    for nd in ast.walk(f.node):
        if isinstance(nd, ast.Assign) and isinstance(nd.value, ast.Call) and len(nd.targets) == 1 and isinstance(nd.targets[0], (ast.Tuple, ast.List)):
            t = nd.targets[0].elts
            if not any(isinstance(e, ast.Starred) for e in t):
                yield nd.value, len(t)


def decide(repo, S, funcs, ext, sigs, emit, ok, count, universe, paths):
    members = Members(repo, ext)
    ar = tuple_arities(repo)
    mods = {f.mod.name: f.mod for f in funcs}
    for m in mods.values():
        for path, n, line in undefined_names(m):
            emit(R_NAME, '%s name %s' % (path, n), '%s:%d' % (m.rel, line), '%s refers to `%s`, which is defined nowhere' % (path, n), path)
        ok(R_NAME, m.name)
        bad, n = missing_members(m, repo, members)
        count('module_member_references', n)
        for qual, path, line in bad:
            emit(R_MOD, '%s uses %s' % (qual, path), '%s:%d' % (m.rel, line), '%s refers to %s, which does not exist' % (qual, path), qual)
        ok(R_MOD, m.name)
        if universe is not None:
            for nd in ast.walk(m.tree):
                if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Load):
                    count('attribute_reads', 1)
                    if nd.attr not in universe and not nd.attr.startswith('__'):
                        fn = enclosing(m, nd)
                        emit(R_ATTR, '%s attribute %s' % (fn, nd.attr), '%s:%d' % (m.rel, nd.lineno),
                             '%s reads attribute `%s`, which no code, setting or class of the project ever creates' % (fn, nd.attr), fn)
            ok(R_ATTR, m.name)
        if paths is not None:
            known, stored = paths
            for qual, d, nd in read_paths(m):
                count('parameter_reads', 1)
                if not path_known(d, known, stored, None):
                    emit(R_PATH, '%s reads %s' % (qual, d), '%s:%d' % (m.rel, nd.lineno),
                         '%s reads %s, which nothing sets' % (qual, d), qual)
            ok(R_PATH, m.name)
    for f in funcs:
        s = S.get(f)
        if s is None or s.error:
            continue
        ip = s.interp
        seen = set()
        for name, node, fn, pc, v, stack in ip.undef_uses:
            if fn is not f and fn.parent is not f and not fn.qual.startswith(f.qual + '.'):
                if fn.qual in {g.qual for g in funcs}:
                    continue
            k = (fn.qual, name)
            if k in seen:
                continue
            seen.add(k)
            emit(R_DEF, '%s variable %s' % (fn.qual, name), '%s:%d' % (fn.mod.rel, getattr(node, 'lineno', 0)),
                 '%s may use `%s` before it has a value' % (fn.qual, name), f.qual)
        ok(R_DEF, f.qual)
        for nt in ip.notes:
            if nt[0] == 'bind':
                _, q, node, fn, prob, pc = nt
                emit(R_BIND, '%s calls %s: %s' % (fn.qual, q, prob), '%s:%d' % (fn.mod.rel, getattr(node, 'lineno', 0)),
                     '%s calls %s with arguments it does not accept (%s)' % (fn.qual, q, prob), f.qual)
        ok(R_BIND, f.qual)
        by_node = {}
        for c in ip.calls:
            by_node.setdefault(id(c.node), set()).add(c.qual)
            count('calls', 1)
            if c.qual in sigs and isinstance(c.node, ast.Call) and ast.unparse(c.node.func).split('.')[-1] == c.qual.split('.')[-1]:
                kw, mx, nreq = sigs[c.qual]
                kws = [k.arg for k in c.node.keywords]
                star = any(isinstance(a, ast.Starred) for a in c.node.args) or None in kws
                prob = None
                if kw is not None:
                    un = [k for k in kws if k is not None and k not in kw]
                    if un:
                        prob = 'unknown keyword %s' % un[0]
                if mx is not None and not star and len(c.node.args) > mx:
                    prob = 'too many arguments'
                if not star and len(c.node.args) + len(kws) < nreq:
                    prob = 'too few arguments'
                count('external_calls', 1)
                if prob:
                    emit(R_EXT, '%s calls %s: %s' % (c.func.qual, c.qual, prob), c.where(),
                         '%s calls %s with arguments it does not accept (%s)' % (c.func.qual, c.qual, prob), f.qual)
        for call, n in unpack_sites(f):
            qs = by_node.get(id(call), set())
            for q in qs:
                if q in ar:
                    count('unpackings', 1)
                    if ar[q] != n:
                        emit(R_TUPLE, '%s unpacks %s' % (f.qual, q), '%s:%d' % (f.mod.rel, call.lineno),
                             '%s unpacks %d values from %s, which returns %s' % (f.qual, n, q, 'nothing' if ar[q] == 'none' else ar[q]), f.qual)


def enclosing(m, node):
    best = m.name
    for st in ast.walk(m.tree):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)) and st.lineno <= node.lineno <= (st.end_lineno or st.lineno):
            best = m.name + '.' + st.name
    return best


def run(ctx, rep):
    rep.rule(R_DEF, 'on every path, correlated branches taken into account, each local variable is assigned before it is read')
    rep.rule(R_NAME, 'every global name is a builtin, an import or a definition of its module')
    rep.rule(R_MOD, 'every chain module.member refers to a function, class, constant or submodule that exists')
    rep.rule(R_BIND, 'every call of a function of the package passes the required arguments, no unknown keyword and not too many')
    rep.rule(R_EXT, 'calls of third-party functions with an introspectable signature pass only arguments that it accepts')
    rep.rule(R_ATTR, 'every attribute read is created by some code, configuration file or class, or is one of the settings read today')
    rep.rule(R_PATH, 'every parameter read through mp, dm, modvar, ev, cvar, jacStruct or out is set somewhere or is one of the settings read today')
    rep.rule(R_TUPLE, 'results of package functions are unpacked into as many names as they return')
    ext, sigs = load('extnames.json'), load('extsigs.json')
    t = load('attrtable.json')
    universe = attribute_universe(ctx.repo.root, ext, ctx.repo) | set(t['names'])
    stored = stored_paths(ctx.repo.root)
    known = set(t['paths'])
    funcs = [f for f in ctx.judged() if not f.qual.startswith(SKIP)]
    decide(ctx.repo, ctx.S, funcs, ext, sigs, lambda r, c, w, m, q: rep.bad(r, c, w, m), rep.ok, rep.count, universe, (known, stored))
    rep.count('functions', len(funcs))
    rep.floor('functions', 200)
    rep.floor('calls', 3000)
    rep.floor('parameter_reads', 3000)
    rep.floor('module_member_references', 2000)
    rep.floor('unpackings', 5)
    found = set()
    repo, S = selftest.posrepo()
    pf = selftest.posfuncs('c12')
    decide(repo, S, pf, ext, sigs, lambda r, c, w, m, q: found.add((q.split('.')[-1], r)), lambda *a: None, lambda *a: None,
           universe | {'alpha', 'beta'}, (known, stored))
    names = {n for n, _ in found}
    selftest.expect(rep, 'C12', names, {f.name for f in pf if f.name.startswith('bad_')})
    wrong = {n for n in names if n.startswith('good_')}
    if wrong:
        raise AnalysisBroken('negative examples of C12 reported: %s' % sorted(wrong))
    rep.assumptions += ['settings that only user configurations define are those read by today\'s tree (attrtable.json)',
                        'members of third-party modules are those of the installed versions (extnames.json)']


def build_table(ctx):
    ext = load('extnames.json')
    uni = attribute_universe(ctx.repo.root, ext, ctx.repo)
    stored = stored_paths(ctx.repo.root)
    names, paths = set(), set()
    for m in ctx.repo.mods.values():
        if m.name.startswith(SKIP):
            continue
        for nd in ast.walk(m.tree):
            if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Load) and nd.attr not in uni:
                names.add(nd.attr)
        for q, d, nd in read_paths(m):
            if not path_known(d, set(), stored, None):
                paths.add(d)
    return {'names': sorted(names), 'paths': sorted(paths)}

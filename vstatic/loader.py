"""Parses the repository and resolves names to modules, functions, classes and external symbols."""
import ast
import builtins
import os
import warnings

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__'}


class AnalysisBroken(Exception):
    """The check cannot reach a verdict (anchor missing, source does not parse, ...)."""


class Func:
    def __init__(self, qual, node, mod, parent=None, cls=None):
        self.qual, self.node, self.mod, self.parent, self.cls = qual, node, mod, parent, cls
        self.name = getattr(node, 'name', '<lambda>')
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.args = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        n = len(a.defaults)
        self.defaults = dict(zip(self.args[len(self.args) - n:], a.defaults)) if n else {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[k.arg] = d
        deco = set()
        for d in getattr(node, 'decorator_list', []):
            if isinstance(d, ast.Name):
                deco.add(d.id)
        self.static = 'staticmethod' in deco
        self.classm = 'classmethod' in deco
        self.prop = 'property' in deco

    @property
    def where(self):
        return '%s:%d' % (self.mod.rel, self.node.lineno)

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Cls:
    def __init__(self, qual, node, mod):
        self.qual, self.node, self.mod = qual, node, mod
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        self.bases = node.bases


def _stores(n, name):
    return [x for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del))]


def _steps_by_one(s, i):
    one = lambda v: isinstance(v, ast.Constant) and v.value == 1 and not isinstance(v.value, bool)
    if isinstance(s, ast.AugAssign):
        return isinstance(s.target, ast.Name) and s.target.id == i and isinstance(s.op, ast.Add) and one(s.value)
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i \
            and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        l, r = s.value.left, s.value.right
        return (isinstance(l, ast.Name) and l.id == i and one(r)) or (isinstance(r, ast.Name) and r.id == i and one(l))
    return False


def counted_loops(tree):
    """Rewrites `i = a; while i < b: ...; i += 1` (a counted loop) as `for i in range(i, b)`, so that both spellings are analysed alike."""
    for x in ast.walk(tree):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(x, fld, None)
            if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)):
                continue
            k = 0
            while k < len(b):
                s = b[k]
                k += 1
                if not isinstance(s, ast.While) or s.orelse or len(s.body) < 2:
                    continue
                t = s.test
                if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
                    continue
                if isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name):
                    i, hi = t.left.id, t.comparators[0]
                elif isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Name):
                    i, hi = t.comparators[0].id, t.left
                else:
                    continue
                if not _steps_by_one(s.body[-1], i) or any(_stores(y, i) for y in s.body[:-1]):
                    continue
                if any(isinstance(y, (ast.Break, ast.Continue)) for z in s.body for y in ast.walk(z)):
                    continue
                bound_names = {y.id for y in ast.walk(hi) if isinstance(y, ast.Name)}
                if i in bound_names or any(_stores(y, n) for y in s.body for n in bound_names):
                    continue
                # the counter must start from a known value in the same block
                lo = None
                for y in reversed(b[:k - 1]):
                    if _stores(y, i):
                        if isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name):
                            lo = y.value
                        break
                if lo is None:
                    continue
                cp = lambda n: ast.copy_location(n, s)
                rng = cp(ast.Call(cp(ast.Name('range', ast.Load())), [cp(ast.Name(i, ast.Load())), hi], []))
                f = cp(ast.For(cp(ast.Name(i, ast.Store())), rng, s.body[:-1], [], None))
                f.type_comment = None
                b[k - 1] = f
                b.insert(k, cp(ast.Assign([cp(ast.Name(i, ast.Store()))], hi)))
                ast.fix_missing_locations(f)
                k += 1


class Mod:
    def __init__(self, name, path, rel, is_pkg):
        self.name, self.path, self.rel, self.is_pkg = name, path, rel, is_pkg
        with open(path, encoding='utf-8', errors='replace') as f:
            self.src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.src, filename=rel)
        counted_loops(self.tree)
        self.scope = {}       # name -> binding
        self.star = []        # modules star-imported
        self.assigned = {}    # name -> list of value nodes at module level
        self.done = False

    def __repr__(self):
        return 'Mod(%s)' % self.name


class Repo:
    def __init__(self, root='/repo', packages=('falco',)):
        self.root = root
        self.mods = {}
        self.funcs = {}
        self.classes = {}
        self.node2func = {}
        self._resolving = set()
        for p in packages:
            self._scan(os.path.join(root, p), p)
        for m in self.mods.values():
            self._collect(m)
        for m in list(self.mods.values()):
            self._stars(m, set())

    # ---------------------------------------------------------------- parsing
    def _scan(self, d, pkg):
        init = os.path.join(d, '__init__.py')
        if not os.path.exists(init):
            raise AnalysisBroken('no package at %s' % d)
        try:
            self.mods[pkg] = Mod(pkg, init, os.path.relpath(init, self.root), True)
            for e in sorted(os.listdir(d)):
                f = os.path.join(d, e)
                if os.path.isdir(f) and os.path.exists(os.path.join(f, '__init__.py')):
                    self._scan(f, pkg + '.' + e)
                elif e.endswith('.py') and e != '__init__.py':
                    n = pkg + '.' + e[:-3]
                    self.mods[n] = Mod(n, f, os.path.relpath(f, self.root), False)
        except SyntaxError as ex:
            raise AnalysisBroken('cannot parse: %s' % ex)

    def _resolve_from(self, m, node):
        if node.level == 0:
            return node.module or ''
        base = m.name.split('.')
        if not m.is_pkg:
            base = base[:-1]
        base = base[:len(base) - (node.level - 1)]
        return '.'.join(base + ([node.module] if node.module else []))

    def bind_import(self, m, node, scope, star=None):
        if isinstance(node, ast.Import):
            for al in node.names:
                if al.asname:
                    scope[al.asname] = self._modref(al.name)
                else:
                    top = al.name.split('.')[0]
                    scope[top] = self._modref(top)
        else:
            src = self._resolve_from(m, node)
            for al in node.names:
                if al.name == '*':
                    if star is not None:
                        star.append(src)
                    continue
                nm = al.asname or al.name
                if src in self.mods:
                    if scope.get(nm, ('',))[0] == 'from' and scope[nm][2] == al.name:
                        continue      # re-import of the same name (import cycles between config modules)
                    scope[nm] = ('from', src, al.name)
                else:
                    scope[nm] = ('ext', src + '.' + al.name)

    def _modref(self, name):
        return ('mod', name) if name in self.mods else ('ext', name)

    def _collect(self, m):
        def visit(body, prefix, parent, cls, scope):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + '.' + n.name
                    if q in self.funcs:   # redefinition: the later one wins at run time
                        self.funcs[q + '@%d' % self.funcs[q].node.lineno] = self.funcs[q]
                    f = Func(q, n, m, parent, cls)
                    self.funcs[q] = f
                    self.node2func[n] = f
                    if cls is not None:
                        cls.methods[n.name] = f
                    elif scope is not None:
                        scope[n.name] = ('func', q)
                    visit(n.body, q + '.<locals>', f, None, None)
                elif isinstance(n, ast.ClassDef):
                    q = prefix + '.' + n.name
                    c = Cls(q, n, m)
                    self.classes[q] = c
                    if cls is not None:
                        cls.attrs[n.name] = ('class', q)
                    elif scope is not None:
                        scope[n.name] = ('class', q)
                    visit(n.body, q, parent, c, None)
                else:
                    if cls is not None and isinstance(n, (ast.Assign, ast.AnnAssign)):
                        tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for t in tg:
                            if isinstance(t, ast.Name) and n.value is not None:
                                cls.attrs[t.id] = ('node', n.value)
                    if scope is not None:
                        if isinstance(n, (ast.Import, ast.ImportFrom)):
                            self.bind_import(m, n, scope, m.star)
                        elif isinstance(n, ast.Assign):
                            for t in n.targets:
                                for x in ast.walk(t):
                                    if isinstance(x, ast.Name):
                                        scope[x.id] = ('var', m.name, x.id)
                                        m.assigned.setdefault(x.id, []).append(n.value if isinstance(t, ast.Name) else None)
                        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                            if isinstance(n.target, ast.Name):
                                scope[n.target.id] = ('var', m.name, n.target.id)
                                m.assigned.setdefault(n.target.id, []).append(None)
                        elif isinstance(n, ast.For):
                            for x in ast.walk(n.target):
                                if isinstance(x, ast.Name):
                                    scope[x.id] = ('var', m.name, x.id)
                                    m.assigned.setdefault(x.id, []).append(None)
                        elif isinstance(n, ast.With):
                            for it in n.items:
                                if it.optional_vars is not None:
                                    for x in ast.walk(it.optional_vars):
                                        if isinstance(x, ast.Name):
                                            scope[x.id] = ('var', m.name, x.id)
                                            m.assigned.setdefault(x.id, []).append(None)
                    # nested blocks
                    for fld in ('body', 'orelse', 'finalbody'):
                        sub = getattr(n, fld, None)
                        if isinstance(sub, list):
                            visit(sub, prefix, parent, cls, scope)
                    for h in getattr(n, 'handlers', []) or []:
                        visit(h.body, prefix, parent, cls, scope)
        visit(m.tree.body, m.name, None, None, m.scope)

    def _stars(self, m, active):
        if m.done or m.name in active:
            return
        active = active | {m.name}
        allnames = {}
        for src in m.star:
            if src in self.mods:
                s = self.mods[src]
                self._stars(s, active)
                for k, b in s.scope.items():
                    if not k.startswith('_'):
                        allnames[k] = b
            else:
                allnames.setdefault('*ext', []).append(src)
        for k, b in allnames.items():
            if k != '*ext' and k not in m.scope:
                m.scope[k] = b
        if '*ext' in allnames:
            m.scope['*ext'] = allnames['*ext']
        m.done = True

    # ---------------------------------------------------------------- resolution
    def canon(self, b, depth=0):
        """Follow 'from' bindings."""
        if b and b[0] == 'from':
            if b in self._resolving:
                return ('missing', b[1] + '.' + b[2])
            self._resolving.add(b)
            try:
                return self._canon(b)
            finally:
                self._resolving.discard(b)
        return b

    def _canon(self, b):
        depth = 0
        while b and b[0] == 'from' and depth < 10:
            depth += 1
            nb = self.mod_attr(b[1], b[2])
            if nb is None:
                return ('missing', b[1] + '.' + b[2])
            b = nb
        return b

    def mod_attr(self, modname, attr):
        """Binding of attribute `attr` of a repository module, or None when it does not exist."""
        m = self.mods[modname]
        b = m.scope.get(attr)
        sub = modname + '.' + attr
        if b is not None and b[0] == 'from':
            if (b[1], b[2]) == (modname, attr):
                b = None if sub not in self.mods else ('mod', sub)
            else:
                b = self.canon(b)
        if sub in self.mods:
            if b is not None and b[0] in ('func', 'class'):
                return b
            return ('mod', sub)
        return b

    def readnames(self, f):
        """Attribute names that the function or anything it may call mentions (over-approximated by short names)."""
        if not hasattr(self, '_names'):
            self._names, self._short, self._clo = {}, {}, {}
        if len(self._short) == 0 or self._nfuncs != len(self.funcs):
            self._short, self._nfuncs, self._clo = {}, len(self.funcs), {}
            for g in self.funcs.values():
                self._short.setdefault(g.name, []).append(g)
                if g.cls is not None and g.name == '__init__':
                    self._short.setdefault(g.qual.split('.')[-2], []).append(g)
        r = self._clo.get(f.qual)
        if r is not None:
            return r
        seen, todo, out = set(), [f], set()
        while todo:
            g = todo.pop()
            if g.qual in seen:
                continue
            seen.add(g.qual)
            d = self._names.get(g.qual)
            if d is None:
                attrs, calls = set(), set()
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Attribute):
                        attrs.add(x.attr)
                        calls.add(x.attr)
                    elif isinstance(x, ast.Name):
                        calls.add(x.id)
                    elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
                        attrs.add(x.value)
                d = self._names[g.qual] = (attrs, calls)
            out |= d[0]
            for c in d[1]:
                todo.extend(h for h in self._short.get(c, ()) if not h.qual.startswith('falco.proper'))
        self._clo[f.qual] = out
        return out

    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            raise AnalysisBroken('anchor function %s not found' % qual)
        return f

    def analysed(self):
        """Functions of the hand-written package (vendored PROPER excluded)."""
        return [f for q, f in sorted(self.funcs.items()) if not q.startswith('falco.proper') and '@' not in q]

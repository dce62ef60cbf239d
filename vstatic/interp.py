"""Abstract interpreter: builds value graphs, a flow-sensitive heap and effect logs for repository functions.

No code of /repo is executed: every construct is mapped to a term.  Branches are joined with gated phi terms, loops are
summarised to a fixpoint (loop-carried cells become mu terms), calls inside the repository are inlined or applied as
summaries according to a policy.
"""
import ast

from .terms import (T, mk, const, NONE, TRUE, FALSE, UNDEF, phi, not_, and_, or_, binop, unop, cmpop, truth, length,
                    idx, upd, subst, walk, path_of, show, children)
from .loader import BUILTINS, Func

MAXUNROLL = 12
# attributes that always hold arrays (``x.V += d`` changes the array in place)
ARRAY_NAMES = {'V', 'E', 'mask', 'Eest', 'Im', 'imageArray', 'G1', 'G2', 'G8', 'G9', 'IincoEst', 'act_ele', 'dm_ind', 'sbp_weights',
               'lambda_weights', 'Vall', 'surfM', 'inf_datacube', 'croppedMask'}
COUNTS = {'Nsbp', 'Nwpsbp', 'Nitr', 'count'}

VIEW_CALLS = {'numpy.asarray', 'numpy.squeeze', 'numpy.reshape', 'numpy.ravel', 'numpy.transpose', 'numpy.atleast_1d',
              'numpy.atleast_2d', 'numpy.atleast_3d', 'numpy.flipud', 'numpy.fliplr', 'numpy.rot90', 'numpy.real', 'numpy.imag',
              'numpy.swapaxes', 'numpy.moveaxis', 'numpy.expand_dims', 'numpy.asanyarray', 'numpy.broadcast_to', 'numpy.flip',
              'numpy.ascontiguousarray', 'numpy.diagonal'}
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view', 'diagonal'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat'}
ARRAY_ATTRS = {'shape', 'size', 'ndim', 'dtype', 'itemsize', 'nbytes'} | VIEW_ATTRS
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'fill',
            'put', 'resize', 'itemset', 'popitem', 'add', 'discard', 'partition', 'setflags', 'byteswap', 'write'}
CALL_MUTATES = {   # external functions that write to an argument: index of the argument
    'numpy.fill_diagonal': 0, 'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0,
    'random.shuffle': 0, 'numpy.random.shuffle': 0, 'setattr': 0, 'numpy.add.at': 0, 'numpy.subtract.at': 0, 'numpy.put_along_axis': 0,
    'delattr': 0,
}
MAPPERS = {'map', 'starmap', 'imap', 'starmap_async', 'map_async', 'imap_unordered', 'submit', 'apply_async', 'apply'}
SCALAR_OK = (int, float, complex, str, bool, type(None))
PI_NAMES = {'math.pi': 'numpy.pi', 'scipy.pi': 'numpy.pi'}


# helpers whose raising guards establish facts about their argument in the caller
VALIDATORS = {'falco.check.centering'}

# known short functions that return a shallow copy with some attributes replaced (others are recognised by their form)
COPY_HELPERS = {'falco.imaging._with_polaxis'}


# bringing a command within its constraints before it is used changes nothing that a later use could notice, nor do the caches of the surface model
IDEMPOTENT = {'falco.dm.enforce_constraints', 'falco.dm.gen_surf_from_act', 'falco.dm.discretize_surf', 'falco.dm.propcustom_dm'}
CACHES = {'differentiableModel', 'differentiableModelSettings'}


WAVEFRONT_MAKERS = {'prop_begin', '_init_proper'}


def proper_writes(repo, f, seen=()):
    """Attributes of its first argument that a function of PROPER changes: (names, whether it only multiplies wfarr) or None."""
    r = getattr(f, '_pw', 0)
    if r != 0:
        return r
    names, mult = set(), True
    p = f.args[0] if f.args else None
    if p in ('wf', 'wavefront'):
        for nd in ast.walk(f.node):
            if isinstance(nd, ast.Attribute) and nd.attr == 'wfarr' and isinstance(nd.ctx, ast.Load):
                mult = False            # what it multiplies by depends on what was there
            tg = [nd.target] if isinstance(nd, ast.AugAssign) else nd.targets if isinstance(nd, ast.Assign) else []
            for t in tg:
                while isinstance(t, ast.Subscript):
                    t = t.value
                    mult = False if isinstance(nd, ast.Assign) else mult
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == p:
                    names.add(t.attr)
                    if not (isinstance(nd, ast.AugAssign) and isinstance(nd.op, (ast.Mult, ast.Div)) and t.attr == 'wfarr'):
                        mult = False
            if isinstance(nd, ast.Call) and nd.args and isinstance(nd.args[0], ast.Name) and nd.args[0].id == p:
                nm = nd.func.attr if isinstance(nd.func, ast.Attribute) else getattr(nd.func, 'id', None)
                g = repo.funcs.get('falco.proper.%s.%s' % (nm, nm)) if nm else None
                if g is not None and g is not f and g.qual not in seen:
                    r2 = proper_writes(repo, g, seen + (f.qual,))
                    if r2:
                        names |= r2[0]
                        mult = mult and r2[1]
    r = (frozenset(names), mult) if names else None
    if not seen:
        f._pw = r
    return r


def copy_helper(f):
    """A short function that returns a shallow copy with some attributes replaced: the sharing that it leaves must stay visible."""
    r = getattr(f, '_copyh', None)
    if r is None:
        r = f.qual in COPY_HELPERS or len(f.node.body) <= 12 and not any(isinstance(x, (ast.For, ast.While, ast.If, ast.Try, ast.With)) for x in ast.walk(f.node)) \
            and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'copy'
                    and isinstance(x.func.value, ast.Name) and x.func.value.id == 'copy' for x in ast.walk(f.node))
        f._copyh = r
    return r


class State:
    __slots__ = ('env', 'heap', 'cont', 'pc')

    def __init__(self, env=None, heap=None, cont=None, pc=()):
        self.env, self.heap, self.cont, self.pc = env or {}, heap or {}, cont or {}, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.cont), self.pc)


class Effect:
    __slots__ = ('kind', 'root', 'path', 'base', 'attr', 'index', 'value', 'node', 'func', 'pc', 'loops', 'task', 'stack', 'ident', 'chain', 'how', 'content')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def where(self):
        return '%s:%d' % (self.func.mod.rel, getattr(self.node, 'lineno', 0))


class Call:
    __slots__ = ('fn', 'qual', 'args', 'kw', 'bound', 'node', 'func', 'pc', 'loops', 'task', 'stack', 'result', 'recv', 'order', 'state')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def where(self):
        return '%s:%d' % (self.func.mod.rel, getattr(self.node, 'lineno', 0))


class Exit:
    __slots__ = ('state', 'value', 'node', 'kind', 'func')

    def __init__(self, kind, state, value, node, func):
        self.kind, self.state, self.value, self.node, self.func = kind, state, value, node, func


class Frame:
    def __init__(self, fid, func, parent=None):
        self.fid, self.func, self.parent = fid, func, parent
        self.returns = []
        self.locals = None
        self.globals_decl = set()
        self.nonlocal_decl = set()


class Budget(Exception):
    pass


def local_names(node):
    """Names bound in a function body (excluding nested scopes)."""
    out, glob, nonl = set(), set(), set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for ch in ast.walk(n):
                if isinstance(ch, ast.NamedExpr):
                    out.add(ch.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                if al.name != '*':
                    out.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for ch in ast.iter_child_nodes(n):
            visit(ch)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    return out - glob - nonl, glob, nonl


class Interp:
    def __init__(self, repo, policy=None, assume=None, unroll=MAXUNROLL, budget=400000, summaries=None, record_reads=True):
        self.repo = repo
        self.policy = policy or (lambda q, depth: 'opaque')
        self.assume = assume or {}
        self.unroll = unroll
        self.budget = budget
        self.steps = 0
        self.newn = 0
        self.fidn = 0
        self.effects, self.calls, self.reads, self.raises, self.drops = [], [], [], [], []
        self.bare = set()
        self.log = True
        self.frames = []
        self.loops = []
        self.tasks = []
        self.alloc_task = {}
        self.closures = {}
        self.orch = False       # keep loops as systems over named cells instead of closed forms
        self.mu_key = {}
        self.mu_home = {}       # (orch) cell of a fresh array -> where it is held when the loop starts
        self.mu_val = {}        # (orch) loop-carried cell -> (value before the loop, value after one pass, bound, index)
        self.mu_tab = {}        # loop-carried cell -> (value before the loop, value after one pass)
        self.nodestack = []
        self.summaries = summaries
        self.record_reads = record_reads
        self.undef_uses = []
        self.callseq = 0
        self.notes = []
        self.with_state = False
        self.keep = None        # keep(path): attribute reads that stay paths whatever was stored there

    # ------------------------------------------------------------------ entry
    def run(self, func, args=None, state=None):
        """Interpret `func` with symbolic parameters. Returns Result."""
        st = state or State()
        self.entry_func = func
        actual = {}
        args = args or {}
        names = func.args + func.kwonly + ([func.vararg] if func.vararg else []) + ([func.kwarg] if func.kwarg else [])
        for nme in names:
            actual[nme] = args.get(nme, mk('param', func.qual, nme))
        st2, ret, exits = self.exec_function(func, actual, st, None)
        return Result(self, func, st2, ret, exits)

    def exec_function(self, func, actual, st, parent_frame, clo_env=None):
        self.fidn += 1
        fr = Frame(self.fidn, func, parent_frame)
        loc, glob, nonl = local_names(func.node)
        loc |= set(actual)
        fr.locals, fr.globals_decl, fr.nonlocal_decl = loc, glob, nonl
        self.frames.append(fr)
        st = st.copy()
        outer_pc = st.pc
        for k, v in actual.items():
            st.env[(fr.fid, k)] = v
        body = func.node.body
        if isinstance(body, list):
            end = self.block(body, st)
            if end is not None:
                fr.returns.append(Exit('return', end, NONE, body[-1], func))
        else:
            v = self.ev(body, st)
            fr.returns.append(Exit('return', st, v, body, func))
        self.frames.pop()
        exits = fr.returns
        if not exits:
            return None, UNDEF, exits
        merged, ret = self.merge_exits(exits, len(outer_pc))
        if merged is not None:
            keep = self.has_closure(fr)
            merged.pc = outer_pc
            if len(exits) == 1 and len(exits[0].state.pc) > len(outer_pc):
                # facts established by raising guards survive the call
                merged.pc = exits[0].state.pc
            if not keep:
                for k in [k for k in merged.env if k[0] == fr.fid]:
                    del merged.env[k]
        return merged, ret, exits

    def has_closure(self, fr):
        return any(c[1] is fr for c in self.closures.values())

    # ------------------------------------------------------------------ merging
    def merge2(self, c, s1, s2):
        """State equal to s1 when c, else s2."""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        r = State()
        for k in s1.env.keys() | s2.env.keys():
            a, b = s1.env.get(k, UNDEF), s2.env.get(k, UNDEF)
            r.env[k] = a if a is b else self.phi_val(c, a, b)
        for k in s1.heap.keys() | s2.heap.keys():
            a = s1.heap.get(k)
            b = s2.heap.get(k)
            if a is None:
                a = self.initial(k)
            if b is None:
                b = self.initial(k)
            r.heap[k] = a if a is b else self.phi_val(c, a, b)
        for k in s1.cont.keys() | s2.cont.keys():
            a = s1.cont.get(k)
            b = s2.cont.get(k)
            if a is None and k.op == 'new':
                a = b
            if b is None and k.op == 'new':
                b = a
            a = a if a is not None else k
            b = b if b is not None else k
            r.cont[k] = a if a is b else phi(c, a, b)
        n = 0
        for x, y in zip(s1.pc, s2.pc):
            if x[0] is y[0] and x[1] == y[1]:
                n += 1
            else:
                break
        r.pc = s1.pc[:n]
        return r

    def phi_val(self, c, a, b):
        return phi(c, a, b)

    def initial(self, key):
        base, attr = key
        return mk('attr', base, attr)

    def merge_exits(self, exits, plen):
        items = [(e.state, e.value, e.state.pc[plen:]) for e in exits]
        if len(items) == 1:
            return items[0][0].copy(), items[0][1]
        st, v = self._tree(items)
        return st, v

    def _tree(self, items, depth=0):
        if len(items) == 1:
            return items[0][0], items[0][1]
        lead = next((x for x in items if x[2]), None)
        if lead is None or depth > 60:
            s, v = items[0][0], items[0][1]
            for s2, v2, _ in items[1:]:
                c = mk('choice', s.pc and len(s.pc) or 0, self.newid())
                v = phi(c, v, v2)
                s = self.merge2(c, s, s2)
            return s, v
        c, pol = lead[2][0]
        A, B = [], []
        for s, v, rest in items:
            if not rest:
                A.append((s, v, rest))
                B.append((s, v, rest))
            elif rest[0][0] is c:
                (A if rest[0][1] else B).append((s, v, rest[1:]))
            else:
                # different first condition: keep it on both sides
                A.append((s, v, rest))
                B.append((s, v, rest))
        if not A:
            return self._tree(B, depth + 1)
        if not B:
            return self._tree(A, depth + 1)
        s1, v1 = self._tree(A, depth + 1)
        s2, v2 = self._tree(B, depth + 1)
        return self.merge2(c, s1, s2), phi(c, v1, v2)

    def newid(self):
        self.newn += 1
        return self.newn

    # ------------------------------------------------------------------ values
    def val(self, t, st, depth=0, memo=None):
        """Content (pure value) of t: identities replaced by what they currently hold."""
        if t.op == 'const' or t.op in ('ext', 'func', 'class', 'mod', 'clo', 'undef'):
            return t
        c = st.cont.get(t)
        if c is not None:
            if depth < 8 and c.op in ('list', 'tuple', 'dict'):
                return self.val_children(c, st, depth)
            return c
        if t.op == 'view':
            return self.apply_view(t.a[1], self.val(t.a[0], st, depth + 1))
        if t.op == 'aview':
            return t.a[0]
        if t.op == 'phi' and depth < 8:
            # a chain of branches is one level, however long it is
            memo = {} if memo is None else memo
            r = memo.get(t.n)
            if r is None:
                if len(memo) > 400:
                    return t
                r = memo[t.n] = phi(t.a[0], self.val(t.a[1], st, depth, memo), self.val(t.a[2], st, depth, memo))
            return r
        if t.op in ('list', 'tuple', 'dict', 'set') and depth < 8:
            return self.val_children(t, st, depth)
        if t.op == 'obj' and depth < 4:
            attrs = sorted(((k[1], v) for k, v in st.heap.items() if k[0] is t), key=lambda x: x[0])
            return mk('snap', t.a[0], tuple((a, self.val(v, st, depth + 1)) for a, v in attrs))
        if t.op == 'idx' and depth < 8:
            b = self.val(t.a[0], st, depth + 1)
            if b is not t.a[0]:
                return idx(b, t.a[1])
        if t.op == 'attr' and depth < 8:
            r = t.a[0]
            while r.op == 'attr':
                r = r.a[0]
            if r.op == 'new' and st.cont.get(r, r).op == 'call':     # attribute of what an opaque call returned
                return mk('attr', self.val(t.a[0], st, depth + 1), t.a[1])
        return t

    def val_children(self, c, st, depth):
        if c.op == 'dict':
            return mk('dict', *[(k, self.val(v, st, depth + 1)) if isinstance(k, T) else (k, v) for k, v in c.a])
        return mk(c.op, *[self.val(x, st, depth + 1) for x in c.a])

    def apply_view(self, path, content):
        how = path[0]
        if how == 'idx':
            return idx(content, path[1])
        if how == 'attr':
            return mk('aattr', content, path[1])
        if how == 'meth':
            return mk('meth', path[1], content, path[2], path[3])
        if how == 'call':
            args = tuple(content if i == path[3] else x for i, x in enumerate(path[2]))
            return mk('call', path[1], args, path[4])
        return mk('unk', 'view')

    def view(self, base, path):
        return mk('view', base, path)

    def note_alloc(self, t):
        if self.tasks:
            self.alloc_task[t] = tuple(self.tasks)
        return t

    def fresh(self, t, st):
        """Give a newly computed mutable value an identity of its own."""
        n = self.note_alloc(mk('new', self.newid()))
        st.cont[n] = t
        return n

    def is_identity(self, t):
        return t.op in ('new', 'param', 'attr', 'view', 'glob', 'obj') or (t.op == 'idx')

    def ident_roots(self, t, st, out=None):
        """Objects that an in-place write through t modifies."""
        if out is None:
            out = []
        if t.op == 'view':
            self.ident_roots(t.a[0], st, out)
        elif t.op == 'phi':
            self.ident_roots(t.a[1], st, out)
            self.ident_roots(t.a[2], st, out)
        elif t.op == 'aview':       # view produced by an opaque call
            self.ident_roots(t.a[1], st, out)
        else:
            if t not in out:
                out.append(t)
        return out

    # ------------------------------------------------------------------ attribute access
    def get_attr(self, base, attr, st, node, raw=True):
        op = base.op
        if op == 'mod':
            b = self.repo.mod_attr(base.a[0], attr)
            if b is None:
                return mk('ext', base.a[0] + '.' + attr)
            return self.binding(b)
        if op == 'ext':
            n = base.a[0] + '.' + attr
            return mk('ext', PI_NAMES.get(n, n))
        if op == 'phi' and base.a[1].op in ('attr', 'param', 'obj', 'new', 'phi', 'idx') and base.a[2].op in ('attr', 'param', 'obj', 'new', 'phi', 'idx', 'undef') and attr not in ARRAY_ATTRS:
            return phi(base.a[0], self.get_attr(base.a[1], attr, st, node), self.get_attr(base.a[2], attr, st, node))
        if op == 'undef':
            return UNDEF
        if op == 'obj':
            v = st.heap.get((base, attr))
            if v is not None:
                self.note_read(base, attr, node, st, v)
                return v
            m = self.class_attr(base.a[0], attr)
            if m is not None:
                if m[0] == 'func':
                    return mk('bound', base, m[1])
                return self.binding(m)
            if base in self.bare and attr != 'data' and not attr.startswith('__'):
                t = mk('attr', mk('snap', base.a[0], ()), attr)     # an attribute nobody gave it
                self.note_read(base, attr, node, st, t)
                return t
        if op == 'class':
            m = self.class_attr(base.a[0], attr)
            if m is not None:
                return self.binding(m)
        key = (base, attr)
        v = st.heap.get(key)
        if v is not None and self.keep is not None:
            t = mk('attr', base, attr)
            root, p = path_of(t)
            if root.op == 'param' and self.keep(p):
                self.note_read(base, attr, node, st, t)
                return t
        if v is None and op == 'scopy':
            return self.get_attr(base.a[0], attr, st, node)
        if v is None and base.op == 'param' and attr not in ARRAY_ATTRS:
            m = self.self_method(base, attr)
            if m is not None:
                return m
        if v is not None:
            self.note_read(base, attr, node, st, v)
            return self.assume.get(v, v)
        if attr in ARRAY_ATTRS and op not in ('param',) or (attr in ('shape', 'ndim', 'T', 'real', 'imag', 'size')):
            if attr in VIEW_ATTRS:
                return self.view(base, ('attr', attr))
            return mk('aattr', self.val(base, st), attr)
        t = mk('attr', base, attr)
        self.note_read(base, attr, node, st, t)
        return self.assume.get(t, t)

    def has_attr(self, base, attr, st):
        if base.op == 'phi':
            return phi(base.a[0], self.has_attr(base.a[1], attr, st), self.has_attr(base.a[2], attr, st))
        v = st.heap.get((base, attr.py))
        if v is UNDEF and base.op == 'obj' and base in self.bare:
            return FALSE
        if v is not None and v is not UNDEF:
            if v.op != 'phi':
                return TRUE
            if base.op == 'obj' and base in self.bare:
                return self.defined(v)
        if v is None and base.op == 'obj' and base in self.bare and not attr.py.startswith('__') and self.class_attr(base.a[0], attr.py) is None and attr.py != 'data':
            return FALSE
        return mk('call', 'hasattr', (base, attr), ())

    def defined(self, v):
        if v.op == 'phi':
            return phi(v.a[0], self.defined(v.a[1]), self.defined(v.a[2]))
        return FALSE if v is UNDEF else TRUE

    def self_method(self, base, attr):
        f = self.repo.funcs.get(base.a[0])
        if f is not None and f.cls is not None and f.args and f.args[0] == base.a[1] and not f.static:
            m = self.class_attr(f.cls.qual, attr)
            if m is not None and m[0] == 'func':
                mf = self.repo.funcs[m[1]]
                if mf.prop:
                    return None
                return mk('bound', base, m[1])
            if m is not None and m[0] == 'class':
                return mk('class', m[1])
        return None

    def class_attr(self, cq, attr, depth=0):
        c = self.repo.classes.get(cq)
        if c is None or depth > 6:
            return None
        if attr in c.methods:
            return ('func', c.methods[attr].qual)
        if attr in c.attrs:
            return c.attrs[attr]
        for b in c.bases:
            bb = self.base_class(c, b)
            if bb:
                r = self.class_attr(bb, attr, depth + 1)
                if r is not None:
                    return r
        return None

    def base_class(self, c, b):
        try:
            if isinstance(b, ast.Name):
                x = self.repo.canon(c.mod.scope.get(b.id))
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                x = self.repo.canon(c.mod.scope.get(b.value.id))
                if x and x[0] == 'mod':
                    x = self.repo.mod_attr(x[1], b.attr)
            else:
                x = None
        except Exception:
            x = None
        return x[1] if x and x[0] == 'class' else None

    def binding(self, b):
        b = self.repo.canon(b)
        if b is None:
            return mk('unk', 'name')
        if b[0] in ('func', 'class', 'mod'):
            return mk(b[0], b[1])
        if b[0] == 'ext':
            return mk('ext', PI_NAMES.get(b[1], b[1]))
        if b[0] == 'missing':
            return mk('ext', b[1])
        if b[0] == 'node':
            if isinstance(b[1], ast.Constant):
                return const(b[1].value)
            return mk('unk', 'classattr')
        if b[0] == 'var':
            m = self.repo.mods[b[1]]
            vals = m.assigned.get(b[2], [])
            if len(vals) == 1 and vals[0] is not None:
                v = self.const_node(vals[0], m)
                if v is not None:
                    return v
            return mk('glob', b[1], b[2])
        return mk('unk', str(b))

    def const_node(self, n, m):
        if isinstance(n, ast.Constant):
            return const(n.value)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
            return const(-n.operand.value)
        return None

    def note_read(self, base, attr, node, st, value):
        if self.log and self.record_reads:
            self.reads.append((base, attr, node, self.frames[-1].func if self.frames else None, st.pc, value, tuple(self.tasks)))

    def set_attr(self, base, attr, v, st, node, how='attr'):
        if base.op == 'phi':
            for c, leaf in self.leaves(base):
                old = st.heap.get((leaf, attr), mk('attr', leaf, attr))
                st.heap[(leaf, attr)] = phi(c, v, old)
                self.effect('attr', leaf, attr, None, v, st, node, how)
            return
        cur = st.heap.get((base, attr), mk('attr', base, attr))
        if cur is v:
            return      # the very object already stored there
        st.heap[(base, attr)] = v
        self.effect('attr', base, attr, None, v, st, node, how)

    def leaves(self, t, c=TRUE):
        if t.op == 'phi':
            yield from self.leaves(t.a[1], and_(c, t.a[0]))
            yield from self.leaves(t.a[2], and_(c, not_(t.a[0])))
        else:
            yield c, t

    def effect(self, kind, base, attr, index, value, st, node, how):
        if not self.log:
            return
        root, path = path_of(base)
        if attr is not None:
            path = path + '.' + attr
        self.effects.append(Effect(kind=kind, root=root, path=path, base=base, attr=attr, index=index, value=value, node=node,
                                   func=self.frames[-1].func, pc=st.pc, loops=tuple(self.loops), task=tuple(self.tasks),
                                   stack=tuple(f.func.qual for f in self.frames), how=how,
                                   content=self.val(value, st) if self.keep is not None and hasattr(value, 'op') else None))

    def inplace(self, target, index, value, st, node, how):
        """In-place modification of the object(s) that `target` denotes; new content = upd(content, index, value)."""
        for c, leaf in self.leaves(target):
            self._inplace_leaf(leaf, index, value, st, node, how, c)

    def _inplace_leaf(self, leaf, index, value, st, node, how, cond):
        path = []
        base = leaf
        if leaf.op == 'aview':      # what a call returned, possibly (part of) one of its arguments
            old = self.val(leaf, st)
            new = value if index is None else upd(old, index, value)
            st.cont[leaf] = new if cond is TRUE else phi(cond, new, old)
        while base.op in ('view', 'aview'):
            if base.op == 'view':
                path.append(base.a[1])
                base = base.a[0]
            else:
                path.append(('opq', base.a[0]))
                base = base.a[1]
        if base.op == 'phi':
            for c, l2 in self.leaves(base):
                r = l2
                for p in reversed(path):
                    r = self.view(r, p)
                self._inplace_leaf(r, index, value, st, node, how, and_(cond, c))
            return
        old = self.val(base, st)
        if path:
            ip = tuple(self.pathterm(p) for p in reversed(path))
            new = upd(old, mk('vpath', ip, index if index is not None else NONE), value)
        elif index is None:
            new = value
        else:
            new = upd(old, index, value)
        if cond is not TRUE:
            new = phi(cond, new, old)
        st.cont[base] = new
        self.effect('inplace', base, None, index, value, st, node, how)
        if base.op == 'idx':
            # element of a container: the container's content changes as well (weakly)
            self._inplace_container(base, new, st)

    def _inplace_container(self, base, new, st):
        b = base.a[0]
        depth = 0
        while b.op in ('idx', 'view') and depth < 5:
            b = b.a[0]
            depth += 1

    def pathterm(self, p):
        return mk('vp', *[x if isinstance(x, (T, str, tuple, int)) else str(x) for x in p])

    # ------------------------------------------------------------------ names
    def lookup(self, name, st, node):
        fr = self.frames[-1]
        if name in fr.globals_decl:
            return self.global_name(fr.func.mod, name, st, node)
        if name in fr.locals:
            v = st.env.get((fr.fid, name))
            if v is None:
                v = UNDEF
            if self.log and self.maybe_undef(v, st):
                self.undef_uses.append((name, node, fr.func, st.pc, v, tuple(f.func.qual for f in self.frames)))
            return self.strip_undef(v)
        p = fr.parent
        while p is not None:
            if name in p.locals:
                v = st.env.get((p.fid, name))
                if v is not None:
                    return self.strip_undef(v)
            p = p.parent
        return self.global_name(fr.func.mod, name, st, node)

    def global_name(self, mod, name, st, node):
        fr = self.frames[-1] if self.frames else None
        f = fr.func.parent if fr is not None else None
        while f is not None:        # closure analysed on its own: the enclosing function binds the name
            if name in self.func_locals(f):
                return mk('captured', f.qual, name)
            f = f.parent
        b = mod.scope.get(name)
        if b is not None:
            return self.binding(b)
        if name == '__file__':
            return mk('ext', mod.name + '.__file__')
        if name in BUILTINS:
            return mk('ext', name)
        for src in mod.scope.get('*ext', []):
            return mk('ext', src + '.' + name)
        if self.log:
            self.undef_uses.append((name, node, self.frames[-1].func, st.pc, None, tuple(f.func.qual for f in self.frames)))
        return mk('unk', 'name:' + name)

    def func_locals(self, f):
        c = self._flocals = getattr(self, '_flocals', {})
        if f.qual not in c:
            c[f.qual] = local_names(f.node)[0] | set(f.args) | set(f.kwonly) | {f.vararg, f.kwarg}
        return c[f.qual]

    def maybe_undef(self, v, st):
        if v is UNDEF:
            return not self.contradictory(st)
        if v.op == 'phi':
            k = self.known(v.a[0], st)
            if k is True:
                return self.maybe_undef(v.a[1], st)
            if k is False:
                return self.maybe_undef(v.a[2], st)
            return self.maybe_undef(v.a[1], self.with_fact(st, v.a[0], True)) or \
                self.maybe_undef(v.a[2], self.with_fact(st, v.a[0], False))
        if v.op == 'lastdef':
            return False
        return False

    def contradictory(self, st):
        """The path facts exclude each other: no such path exists."""
        pos, neg = self.facts(st)
        if pos & neg:
            return True
        conds = {}
        for c in pos:
            conds[c] = TRUE
        for c in neg:
            conds[c] = const(False)
        for c, v in st.pc:
            if c.op in ('cmp', 'cieq'):
                c2 = self.resolve_phis(c, conds)
                if c2.op == 'const' and bool(c2.py) != v:
                    return True
        return False

    def resolve_phis(self, t, conds):
        def g(x):
            if x.op == 'phi' and x.a[0] in conds:
                return g(x.a[1] if conds[x.a[0]] is TRUE else x.a[2])
            return x
        if t.op == 'cmp':
            return cmpop(t.a[0], g(t.a[1]), g(t.a[2]))
        return t

    def with_fact(self, st, c, pol):
        s = State(st.env, st.heap, st.cont, st.pc + ((c, pol),))
        return s

    def strip_undef(self, v):
        if v.op == 'phi':
            a, b = self.strip_undef(v.a[1]), self.strip_undef(v.a[2])
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return v if (a is v.a[1] and b is v.a[2]) else phi(v.a[0], a, b)
        return v

    # ------------------------------------------------------------------ conditions
    def given(self, t, st):
        """t without the branches that the path taken to here excludes."""
        if t.op != 'phi':
            return t
        k = self.known(t.a[0], st)
        if k is not None:
            return self.given(t.a[1] if k else t.a[2], st)
        return phi(t.a[0], self.given(t.a[1], st), self.given(t.a[2], st))

    def known(self, c, st, facts=None):
        """True/False when the path facts decide c, else None."""
        if c.op == 'const':
            return bool(c.py)
        if c.op == 'not':
            k = self.known(c.a[0], st)
            return None if k is None else (not k)
        pos, neg = self.facts(st)
        if c in pos:
            return True
        if c in neg:
            return False
        if c.op == 'and':
            ks = [self.known(x, st) for x in c.a]
            if all(k is True for k in ks):
                return True
            if any(k is False for k in ks):
                return False
            # more conjuncts than a conjunction known to be false
            cs = set(c.a)
            for p in neg:
                if p.op == 'and' and (cs.issuperset(p.a) or (not cs.isdisjoint(p.a) and all(
                        x in cs or (x.op == 'not' and x.a[0] in neg) or x in pos for x in p.a))):
                    return False
            return None
        # equality with another constant
        if c.op == 'cieq':
            for p in neg:
                # one of several other values
                if p.op == 'and' and all(x.op == 'not' and x.a[0].op == 'cieq' and x.a[0].a[0] is c.a[0] and x.a[0].a[1] != c.a[1] for x in p.a):
                    return False
            for p in pos:
                if p.op == 'cieq' and p.a[0] is c.a[0] and p.a[1] != c.a[1]:
                    return False
                if p.op == 'cmp' and p.a[0] == 'Eq':
                    k, o = (p.a[1], p.a[2]) if p.a[1].op == 'const' else (p.a[2], p.a[1])
                    if o is c.a[0] and k.op == 'const' and isinstance(k.py, str):
                        return k.py.lower() == c.a[1]
        if c.op == 'cmp' and c.a[0] == 'Eq':
            k, o = (c.a[1], c.a[2]) if c.a[1].op == 'const' else (c.a[2], c.a[1])
            if k.op == 'const':
                for p in pos:
                    if p.op == 'cmp' and p.a[0] == 'Eq':
                        k2, o2 = (p.a[1], p.a[2]) if p.a[1].op == 'const' else (p.a[2], p.a[1])
                        if o2 is o and k2.op == 'const' and k2 is not k:
                            try:
                                if k2.py != k.py:
                                    return False
                            except Exception:
                                pass
                    if p.op == 'cieq' and p.a[0] is o and isinstance(k.py, str) and k.py.lower() != p.a[1]:
                        return False
        return None

    def facts(self, st):
        cache = getattr(self, '_factcache', None)
        if cache is None:
            cache = self._factcache = {}
        r = cache.get(st.pc)
        if r is not None:
            return r
        pos, neg = set(), set()

        def add(c, v):
            if c.op == 'not':
                add(c.a[0], not v)
                return
            if c in (pos if v else neg):
                return
            (pos if v else neg).add(c)
            if v and c.op == 'and':
                for x in c.a:
                    add(x, True)
            if c.op == 'cmp' and c.a[0] in ('Eq', 'Lt'):
                implied(c, v)

        def implied(c, v):
            k, o = c.a[1], c.a[2]
            # trichotomy of numbers
            if v:
                if c.a[0] == 'Lt':
                    add(cmpop('Lt', o, k), False)
                    if k.op != 'const' and o.op != 'const':
                        add(cmpop('Eq', o, k), False)
            else:
                other = {'Eq': ('Lt', 'Gt'), 'Lt': ('Eq', 'Gt')}[c.a[0]]
                for x, y in (other, other[::-1]):
                    if cmpop(x, k, o) in neg and cmpop(y, k, o) not in neg:
                        add(cmpop(y, k, o), True)
            if c.a[0] == 'Eq' and o.op == 'const':
                k, o = o, k
            if k.op != 'const' or not isinstance(k.py, int):
                return
            # loop counters start at 0, documented counts are integers of at least 1
            low = 0 if o.op == 'iv' else (1 if o.op == 'attr' and o.a[1] in COUNTS else None)
            if low is None or k.py != low:
                return
            if c.a[0] == 'Eq':
                add(cmpop('Lt', k, o), not v)
            else:
                add(cmpop('Eq', o, k), not v)
        for c, v in st.pc:
            add(c, v)
        # not(and(a,b)) with a true => b false
        for _ in range(3):
            ch = False
            for c in list(neg):
                if c.op == 'and':
                    rest = []
                    for x in c.a:
                        y, want = (x.a[0], False) if x.op == 'not' else (x, True)
                        if (y in pos) == want and (y in pos or y in neg):
                            continue
                        rest.append(x)
                    if not rest:
                        add(c, True)        # every conjunct holds although the conjunction does not: no such path
                        ch = True
                    if len(rest) == 1:
                        x = rest[0]
                        y, v = (x.a[0], True) if x.op == 'not' else (x, False)
                        if y not in (pos if v else neg):
                            add(y, v)
                            ch = True
            if not ch:
                break
        cache[st.pc] = (pos, neg)
        return pos, neg

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            self.steps += 1
            if self.steps > self.budget:
                raise Budget('%d steps' % self.steps)
            self.nodestack.append(s)
            st = self.stmt(s, st)
            self.nodestack.pop()
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.notes.append(('stmt', type(s).__name__, s))
            return st
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        st = st.copy()
        v = self.ev(s.value, st)
        if v is UNDEF and getattr(self, '_noreturn', False):
            self._noreturn = False
            return None
        if self.log:
            self.drops.append((v, s, self.frames[-1].func, st.pc))
        return st

    def s_Assign(self, s, st):
        st = st.copy()
        v = self.ev(s.value, st)
        if getattr(self, '_noreturn', False):
            self._noreturn = False
            return None
        v = self.own(v, s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def own(self, v, node, st):
        """A freshly computed array/list gets an identity when stored."""
        if v.op in ('list', 'dict', 'set', 'bin', 'upd', 'comp', 'un') or (v.op in ('call', 'meth') and not self.scalarish(v)):
            return self.fresh(v, st)
        return v

    def scalarish(self, v):
        if v.op == 'call' and v.a[0] in ('int', 'float', 'len', 'str', 'bool', 'round', 'numpy.ceil', 'numpy.floor', 'numpy.prod',
                                         'numpy.size', 'max', 'min', 'abs', 'type', 'isinstance', 'getattr', 'open', 'range'):
            return True
        return False

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return st
        st = st.copy()
        v = self.own(self.ev(s.value, st), s.value, st)
        self.assign(s.target, v, st, s)
        return st

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in fr.globals_decl:
                self.effect('global', mk('glob', fr.func.mod.name, t.id), None, None, v, st, node, 'global')
                return
            if t.id in fr.nonlocal_decl:
                p = fr.parent
                while p is not None and t.id not in p.locals:
                    p = p.parent
                if p is not None:
                    st.env[(p.fid, t.id)] = v
                self.effect('nonlocal', mk('glob', fr.func.qual, t.id), None, None, v, st, node, 'nonlocal')
                return
            st.env[(fr.fid, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vv = v
            c = st.cont.get(v)
            if c is not None and c.op in ('list', 'tuple'):
                vv = c
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(t.elts):
                if star is not None:
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, mk('rest', self.val(vv, st), i), st, node)
                        continue
                    if i > star:
                        self.assign(e, mk('idx', self.val(vv, st), const(i - len(t.elts))), st, node)
                        continue
                if vv.op in ('tuple', 'list') and i < len(vv.a):
                    x = vv.a[i]
                elif vv.op == 'phi':
                    x = self.index_value(vv, const(i), st)
                else:
                    x = self.index_value(vv, const(i), st)
                self.assign(e, x, st, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            if base.op in ('ext', 'mod'):
                self.effect('global', base, t.attr, None, v, st, node, 'extattr')
                return
            if t.attr in ('shape',) and base.op not in ('attr', 'obj'):
                self.inplace(base, const('.shape'), self.val(v, st), st, node, 'shape')
                return
            if t.attr in ('real', 'imag', 'flat') and (base, t.attr) not in st.heap:
                self.inplace(self.view(base, ('attr', t.attr)), const(Ellipsis), self.val(v, st), st, node, 'store')
                return
            self.set_attr(base, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            if base.op == 'class' or base.op == 'mod':
                self.effect('global', base, None, i, v, st, node, 'extitem')
                return
            if base.op == 'obj' and i.op == 'const' and isinstance(i.py, str):
                self.set_attr(base, i.py, v, st, node)
                return
            if base.op == 'ext':
                self.effect('global', base, None, i, v, st, node, 'extitem')
                return
            sv = v if v.op in ('new', 'obj') and self.holds_refs(base, st) else self.val(v, st)
            self.inplace(base, i, sv, st, node, 'store')
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def holds_refs(self, base, st):
        c = st.cont.get(base)
        return c is not None and c.op in ('dict', 'list')

    def s_AugAssign(self, s, st):
        st = st.copy()
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, t)
            rhs = self.ev(s.value, st)
            nv = self.arith(op, self.val(old, st), self.val(rhs, st))
            if self.frames[-1].globals_decl and t.id in self.frames[-1].globals_decl:
                self.effect('global', mk('glob', self.frames[-1].func.mod.name, t.id), None, None, nv, st, s, 'global')
                return st
            if self.mutable_aug(old, st):
                self.inplace(old, None if old.op != 'view' else const(Ellipsis), nv, st, s, 'aug')
            else:
                st.env[(self.frames[-1].fid, t.id)] = nv
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            old = self.get_attr(base, t.attr, st, t)
            rhs = self.ev(s.value, st)
            nv = self.arith(op, self.val(old, st), self.val(rhs, st))
            if old.op == 'attr' and t.attr in ARRAY_NAMES:
                self.inplace(old, None, nv, st, s, 'aug')      # the array itself changes, for every holder of it
                self.effect('attr', base, t.attr, None, nv, st, s, 'aug')
                return st
            # attribute rebinding and in-place change of the shared object at once
            self.set_attr(base, t.attr, nv if old.op != 'new' else old, st, s, 'aug')
            for r in self.ident_roots(old, st):
                if r.op in ('new', 'param', 'attr') and not (r.op == 'attr' and (r.a[0], r.a[1]) == (base, t.attr)):
                    st.cont[r] = nv
                    if r.op != 'new':
                        self.effect('inplace', r, None, None, nv, st, s, 'aug')
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            old = self.index_value(base, i, st)
            rhs = self.ev(s.value, st)
            nv = self.arith(op, self.val(old, st), self.val(rhs, st))
            self.inplace(base, i, nv, st, s, 'augstore')
        return st

    def mutable_aug(self, old, st):
        """Does `name op= x` modify the object in place?  (unknown for parameters: assumed yes)"""
        o = old
        if o.op == 'const':
            return False
        if o.op == 'phi':
            return any(self.mutable_aug(l, st) for _, l in self.leaves(o))
        if o.op in ('bin', 'un', 'cmp', 'len', 'iv', 'mu', 'loop', 'comp', 'unk', 'and', 'not', 'call', 'meth', 'fstr', 'tuple', 'cieq', 'undef', 'aattr'):
            return False
        if o.op == 'new':
            return True
        if o.op == 'view' and o.a[1][0] == 'idx':
            return self.sliceish(o.a[1][1])
        if o.op == 'idx':
            return self.sliceish(o.a[1])
        return True

    def sliceish(self, i):
        if i.op == 'slice':
            return True
        if i.op == 'tuple':
            return any(self.sliceish(x) for x in i.a)
        return i.op == 'const' and i.py in (Ellipsis, None)

    def s_Delete(self, s, st):
        st = st.copy()
        fr = self.frames[-1]
        for t in s.targets:
            if isinstance(t, ast.Name):
                v = st.env.get((fr.fid, t.id), UNDEF)
                if self.log and t.id in fr.locals and self.maybe_undef(v, st):
                    self.undef_uses.append((t.id, t, fr.func, st.pc, v, tuple(f.func.qual for f in self.frames)))
                st.env[(fr.fid, t.id)] = UNDEF
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st)
                self.effect('attr', base, t.attr, None, UNDEF, st, s, 'del')
                st.heap[(base, t.attr)] = UNDEF
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                i = self.ev_index(t.slice, st)
                self.inplace(base, i, UNDEF, st, s, 'del')
        return st

    def s_Global(self, s, st):
        return st

    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        st = st.copy()
        sc = {}
        self.repo.bind_import(self.frames[-1].func.mod, s, sc)
        for k, b in sc.items():
            st.env[(self.frames[-1].fid, k)] = self.binding(b)
        return st

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        st = st.copy()
        f = self.repo.node2func.get(s) or Func(self.frames[-1].func.qual + '.<locals>.' + s.name, s, self.frames[-1].func.mod)
        st.env[(self.frames[-1].fid, s.name)] = self.closure(f, st)
        return st

    def s_ClassDef(self, s, st):
        st = st.copy()
        st.env[(self.frames[-1].fid, s.name)] = mk('unk', 'localclass')
        return st

    def closure(self, f, st):
        t = mk('clo', f.qual, self.newid())
        dv = {}
        for k, n in f.defaults.items():
            dv[k] = self.ev(n, st)
        self.closures[t] = (f, self.frames[-1], dv)
        return t

    def s_Return(self, s, st):
        st = st.copy()
        v = self.ev(s.value, st) if s.value is not None else NONE
        if getattr(self, '_noreturn', False):
            self._noreturn = False
            return None
        self.frames[-1].returns.append(Exit('return', st, v, s, self.frames[-1].func))
        return None

    def s_Raise(self, s, st):
        st = st.copy()
        v = self.ev(s.exc, st) if s.exc is not None else mk('reraise')
        if self.log:
            self.raises.append((v, s, self.frames[-1].func, st.pc, tuple(f.func.qual for f in self.frames), st))
        return None

    def s_Assert(self, s, st):
        st = st.copy()
        c = truth(self.val(self.ev(s.test, st), st))
        st.pc = st.pc + ((c, True),)
        return st

    def cond(self, test, st):
        return truth(self.val(self.ev(test, st), st))

    def push(self, st, c, pol):
        s = st.copy()
        if c.op == 'const':
            return s
        while c.op == 'not':
            c, pol = c.a[0], not pol
        s.pc = s.pc + ((c, pol),)
        return s

    def s_If(self, s, st):
        st = st.copy()
        c = self.cond(s.test, st)
        if getattr(self, '_noreturn', False):
            self._noreturn = False
            return None
        k = self.known(c, st)
        if k is True:
            return self.block(s.body, self.push(st, c, True) if c.op != 'const' else st)
        if k is False:
            return self.block(s.orelse, self.push(st, c, False) if c.op != 'const' else st)
        a = self.block(s.body, self.push(st, c, True))
        b = self.block(s.orelse, self.push(st, c, False))
        if a is None or b is None:
            return a if b is None else b
        cc = c
        if cc.op == 'not':
            return self.merge_at(st, cc.a[0], b, a)
        return self.merge_at(st, cc, a, b)

    def merge_at(self, st0, c, a, b):
        """Join after a branch on c; facts that each side implies through its own raising guards are kept as implications."""
        r = self.merge2(c, a, b)
        n0 = len(st0.pc)
        extra = []
        for side, s in ((True, a), (False, b)):
            if s.pc[:n0] == st0.pc and len(s.pc) > n0 + 1:
                own = s.pc[n0:]
                for x, v in own[1:]:
                    # (c == side) implies (x == v)  ==>  not (c==side and x!=v)
                    lit_c = c if side else not_(c)
                    lit_x = not_(x) if v else x
                    im = and_(lit_c, lit_x)
                    if im.op != 'const':
                        extra.append((im, False) if im.op != 'not' else (im.a[0], True))
        if extra:
            r.pc = r.pc + tuple(extra)
        return r

    # ---- loops
    def iter_items(self, it, st):
        """Concrete list of items, or None."""
        v = it
        c = st.cont.get(v)
        if c is not None:
            v = c
        if v.op in ('list', 'tuple') and not any(x.op == 'star' for x in v.a):
            return list(v.a)
        if v.op == 'const' and isinstance(v.py, (str, tuple)):
            return [const(x) for x in v.py]
        if v.op == 'range' and all(x.op == 'const' and isinstance(x.py, int) for x in v.a):
            return [const(i) for i in range(v.a[0].py, v.a[1].py)]
        if v.op == 'call' and v.a[0] == 'numpy.arange' and not v.a[2] and all(x.op == 'const' and isinstance(x.py, int) for x in v.a[1]):
            return [const(i) for i in range(*[x.py for x in v.a[1]])]
        if v.op == 'enum':
            it2 = self.iter_items(v.a[0], st)
            if it2 is not None and v.a[1].op == 'const':
                return [mk('tuple', const(i + v.a[1].py), x) for i, x in enumerate(it2)]
        if v.op == 'zip':
            its = [self.iter_items(x, st) for x in v.a]
            if all(x is not None for x in its):
                return [mk('tuple', *xs) for xs in zip(*its)]
        if v.op == 'call' and v.a[0] in ('numpy.array', 'numpy.asarray', 'list', 'tuple', 'sorted') and len(v.a[1]) == 1:
            return self.iter_items(v.a[1][0], st) if v.a[0] != 'sorted' else None
        if v.op == 'meth' and v.a[0] == 'items' and v.a[1].op == 'dict' and all(isinstance(k, T) for k, _ in v.a[1].a):
            return [mk('tuple', k, x) for k, x in v.a[1].a]
        if v.op == 'dict' and all(isinstance(k, T) for k, _ in v.a):
            return [k for k, x in v.a]
        return None

    def loop_elem(self, it, st, iv):
        """Element of the iterable at index iv, keeping object identity."""
        c = st.cont.get(it)
        v = c if (c is not None and c.op in ('range', 'zip', 'enum', 'comp', 'list')) else it
        if v.op == 'range':
            return binop('Add', v.a[0], iv)
        if v.op == 'zip':
            return mk('tuple', *[self.loop_elem(x, st, iv) for x in v.a])
        if v.op == 'enum':
            return mk('tuple', binop('Add', iv, v.a[1]), self.loop_elem(v.a[0], st, iv))
        return self.index_value(v, iv, st)

    def bound_of(self, it, st):
        v = it
        if v.op in ('zip', 'enum'):
            return self.bound_of(v.a[0], st)
        return length(self.val(v, st))

    def s_For(self, s, st):
        st = st.copy()
        it = self.ev(s.iter, st)
        if getattr(self, '_noreturn', False):
            self._noreturn = False
            return None
        items = self.iter_items(it, st)
        if items is not None and len(items) <= self.unroll:
            return self.unrolled(s, items, st)
        depth = len(self.loops)
        bound = self.bound_of(it, st)
        iv = mk('iv', bound, depth)
        return self.sym_loop(s, st, bound, iv, lambda x: self.assign(s.target, self.loop_elem(it, x, iv), x, s), None)

    s_AsyncFor = s_For

    def unrolled(self, s, items, st):
        ctx = {'break': [], 'continue': []}
        self.loops_ctx = getattr(self, 'loops_ctx', [])
        plen = len(st.pc)
        cur = st
        brks = []
        for x in items:
            if cur is None:
                break
            ctx = {'break': [], 'continue': []}
            self.loops_ctx.append(ctx)
            cur = cur.copy()
            self.assign(s.target, x, cur, s)
            end = self.block(s.body, cur)
            self.loops_ctx.pop()
            outs = [Exit('c', e, NONE, s, None) for e in ctx['continue']]
            if end is not None:
                outs.append(Exit('c', end, NONE, s, None))
            brks += ctx['break']
            if outs:
                cur, _ = self.merge_exits(outs, plen)
                if len(outs) > 1:
                    pass
            else:
                cur = None
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur)
        outs = [Exit('b', b, NONE, s, None) for b in brks]
        if cur is not None:
            outs.append(Exit('b', cur, NONE, s, None))
        if not outs:
            return None
        r, _ = self.merge_exits(outs, plen)
        if len(outs) > 1:
            r = r.copy()
            r.pc = r.pc[:plen] if len(r.pc) > plen and not all(o.state.pc[:len(r.pc)] == r.pc for o in outs) else r.pc
        return r

    def s_Break(self, s, st):
        if getattr(self, 'loops_ctx', None):
            self.loops_ctx[-1]['break'].append(st)
        return None

    def s_Continue(self, s, st):
        if getattr(self, 'loops_ctx', None):
            self.loops_ctx[-1]['continue'].append(st)
        return None

    def sym_loop(self, s, st0, bound, iv, bind, test):
        depth = len(self.loops)
        self.loops_ctx = getattr(self, 'loops_ctx', [])
        changed = {}
        firstbound = set()
        fr = self.frames[-1]
        saved_log = self.log
        plen = len(st0.pc)

        lid = self.newid()

        def mu(kind, k):
            nm = k[1] if isinstance(k, tuple) and isinstance(k[1], str) else (show(k, 4) if isinstance(k, T) else str(k))
            b = k[0].n if isinstance(k, tuple) and isinstance(k[0], T) else (k.n if isinstance(k, T) else k[0])
            m = mk('mu', depth, kind, b, lid, nm)
            if m not in self.mu_key:
                self.mu_key[m] = (kind, k)
                if self.orch and kind == 'cont':
                    self.mu_home[m] = (sorted(((b.n, a) for (b, a), v in st0.heap.items() if v is k), key=str), sorted({n for (_, n), v in st0.env.items() if v is k}),
                                       [(b, a) for (b, a), v in st0.heap.items() if v is k or v.op == 'phi' and any(x is k for _, x in self.leaves(v))])
            return m

        def start():
            x = st0.copy()
            for (kind, k), _ in changed.items():
                getattr(x, kind)[k] = mu(kind, k)
            if test is None:
                first = cmpop('Eq', iv, const(0))
                for k in firstbound:
                    x.env[k] = phi(first, UNDEF, mu('env', k))
            return x

        def once():
            x = start()
            ctx = {'break': [], 'continue': []}
            self.loops_ctx.append(ctx)
            self.loops.append((bound, iv, s))
            c = None
            if bind:
                bind(x)
            if test is not None:
                c = self.cond(test, x)
                x = self.push(x, c, True)
            end = self.block(s.body, x)
            self.loops.pop()
            self.loops_ctx.pop()
            outs = [Exit('c', e, NONE, s, None) for e in ctx['continue']]
            if end is not None:
                outs.append(Exit('c', end, NONE, s, None))
            e = self.merge_exits(outs, plen)[0] if outs else None
            return e, ctx['break'], c
        nret = len(fr.returns)
        self.log = False
        for _ in range(5):
            del fr.returns[nret:]
            e, brks, _c = once()
            new = {}
            grew = False
            base = start()
            ends = ([e] if e is not None else []) + brks
            for x in ends:
                for kind in ('env', 'heap', 'cont'):
                    d0, d1 = getattr(base, kind), getattr(x, kind)
                    for k, v in d1.items():
                        if (kind, k) in changed:
                            continue
                        if kind == 'env':
                            if k not in st0.env:
                                if k not in firstbound and k[0] == fr.fid and v is not UNDEF:
                                    firstbound.add(k)
                                    grew = True
                                continue
                            if d0[k] is v:
                                continue
                        elif kind == 'heap':
                            if d0.get(k, mk('attr', k[0], k[1])) is v:
                                continue
                        else:
                            if k.op == 'new' and k not in d0:
                                continue
                            if d0.get(k, k) is v:
                                continue
                        new[(kind, k)] = True
            if not new and not grew:
                break
            changed.update(new)
        self.log = saved_log
        del fr.returns[nret:]
        e, brks, c = once()
        # returns from inside the loop: guard by an opaque "loop exited here" condition
        for x in fr.returns[nret:]:
            g = mk('loopexit', depth, len(fr.returns), bound)
            x.state = x.state.copy()
            x.state.pc = st0.pc + ((g, True),) + x.state.pc[plen:]
        r = st0.copy()
        nonempty = mk('nonempty', bound) if test is None else mk('entered', depth, c if c is not None else NONE)
        if bound.op == 'const' and isinstance(bound.py, int):
            nonempty = const(bound.py > 0)
        # `for x in f(...)` loops over sequences with a run-time length may be empty: names bound only in the body stay
        # bound after the loop in the analysis (every loop of the package runs over a non-empty case list)
        ends = ([e] if e is not None else []) + brks
        keys = {}
        for x in ends:
            for kind in ('env', 'heap', 'cont'):
                for k in getattr(x, kind):
                    keys[(kind, k)] = True
        whole = {}
        while_cond = c if isinstance(s, ast.While) and not brks and test is not None else None
        for (kind, k) in keys:
            vs = []
            for x in ends:
                v = getattr(x, kind).get(k)
                if v is None:
                    v = mk('attr', self.val(k[0], st0) if k[0].op == 'new' else k[0], k[1]) if kind == 'heap' else (UNDEF if kind == 'env' else None)
                if v is not None and v not in vs:
                    vs.append(v)
            if not vs:
                continue
            d0 = getattr(st0, kind)
            if (kind, k) in changed:
                init = d0.get(k)
                if init is None:
                    init = mk('attr', self.val(k[0], st0) if k[0].op == 'new' else k[0], k[1]) if kind == 'heap' else (k if kind == 'cont' else UNDEF)
                bodyv = vs[0] if len(vs) == 1 else mk('choicev', *vs)
                m = mu(kind, k)
                self.mu_tab[m] = (init, bodyv)
                val = self.loop_value(bound, iv, init, bodyv, m, depth, test is not None)
                getattr(r, kind)[k] = val
                whole[(kind, k)] = (m, bodyv)
            elif k not in d0:
                if kind == 'env':
                    bodyv = vs[0] if len(vs) == 1 else mk('choicev', *vs)
                    getattr(r, kind)[k] = self.last_value(bodyv, bound, iv) if test is None else bodyv
                    m = mu(kind, k)
                    self.mu_tab[m] = (UNDEF, bodyv)
                    whole[(kind, k)] = (m, bodyv)
                elif kind == 'cont':
                    getattr(r, kind)[k] = vs[0]
                else:
                    init = mk('attr', self.val(k[0], st0) if k[0].op == 'new' else k[0], k[1])
                    if vs[0] is not init:
                        getattr(r, kind)[k] = phi(nonempty, vs[0], init)
        # values carried by several variables of the loop at once: one system of recurrences
        if self.orch:
            for (kind, k), (m, bodyv) in whole.items():
                init = self.given(self.val(self.mu_tab[m][0], st0), st0)
                self.mu_val[m] = (init, self.val(bodyv, e) if e is not None and not brks else mk('choicev', bodyv), bound, iv)
                if kind == 'env' and bodyv.op == 'new' and not brks:
                    r.cont[bodyv] = mk('exit', m)
                    getattr(r, kind)[k] = bodyv
                else:
                    getattr(r, kind)[k] = mk('exit', m)
        elif e is not None and not brks:
            todo = []
            for (kind, k), (m, bodyv) in whole.items():
                val = self.system(m, bodyv, bound, iv, while_cond, lid, depth, test is not None, e, st0)
                if val is None:
                    b = self.val(bodyv, e) if bodyv.op == 'new' and kind == 'env' and test is None else None
                    if b is not None and b is not bodyv and self.depends(b, m):
                        val = self.loop_value(bound, iv, self.val(self.mu_tab[m][0], st0), b, m, depth, False)
                if val is None:
                    continue
                if bodyv.op == 'new' and kind == 'env':
                    if bodyv not in st0.cont:
                        todo.append((bodyv, val))
                else:
                    getattr(r, kind)[k] = val
            for ref, val in todo:
                r.cont[ref] = val
        if test is None and e is not None and fr.returns[nret:]:
            for x in fr.returns[nret:]:
                g = x.state.pc[plen]
                r.pc = r.pc + ((g[0], False),)
        if isinstance(s, ast.While) and e is None and not brks:
            return None
        if isinstance(s, ast.While) and c is not None and c is TRUE and not brks:
            return None
        if s.orelse:
            return self.block(s.orelse, r)
        return r

    def system(self, m, bodyv, bound, iv, c, lid, depth, is_while, e, st0):
        def mus(t):
            return [x for x in walk(t) if x.op == 'mu' and x.a[3] == lid]

        def body(x):
            return self.val(self.mu_tab[x][1], e)
        if is_while and c is None:
            return None
        if not is_while and not [x for x in mus(body(m)) if x is not m]:
            return None
        order = [m]
        for x in (mus(c) if c is not None else []):
            if x not in order:
                order.append(x)
        i = 0
        while i < len(order):
            if order[i] not in self.mu_tab or len(order) > 12:
                return None
            for x in mus(body(order[i])):
                if x not in order:
                    order.append(x)
            i += 1
        to = {x: mk('mu', depth, 'sys', j, 0, '') for j, x in enumerate(order)}
        bodies = tuple(subst(body(x), to) for x in order)
        inits = tuple(self.val(self.mu_tab[x][0], st0) for x in order)
        return mk('rec', mk('loopwhile') if is_while else bound, iv, subst(c, to) if c is not None else NONE, inits, bodies)

    def last_value(self, v, bound, iv):
        if bound.op == 'const':
            return subst(v, {iv: const(bound.py - 1)}) if isinstance(bound.py, int) and bound.py > 0 else v
        return v if not self.depends(v, iv) else mk('last', v, bound, iv)

    def depends(self, v, x):
        return any(y is x for y in walk(v))

    def loop_value(self, bound, iv, init, bodyv, m, depth, is_while):
        own = mk('mu', depth, 'self', 0, 0, '')
        b = subst(bodyv, {m: own})
        # append pattern -> comprehension
        if b.op == 'appended' and b.a[0] is own and init.op == 'list' and not init.a and not is_while and not self.depends(b.a[1], own):
            return mk('comp', 'list', b.a[1], bound, iv.a[1], ())
        # fill pattern  x[.., i, ..] = f(i)
        if not self.depends(b, own):
            return mk('last', b, bound, iv) if self.depends(b, iv) else b
        return mk('loop', bound, iv, init, b)

    def s_While(self, s, st):
        depth = len(self.loops)
        bound = mk('while', depth)
        iv = mk('iv', bound, depth)
        st = st.copy()
        r = self.sym_loop(s, st, bound, iv, None, s.test)
        return r

    # ---- with / try
    def s_With(self, s, st):
        st = st.copy()
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if self.log and v.op in ('call', 'meth'):
                self.with_items = getattr(self, 'with_items', [])
                self.with_items.append((it.context_expr, self.frames[-1].func))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        st = st.copy()
        fr = self.frames[-1]
        n0 = len(fr.returns)
        nr0 = len(self.raises)
        plen = len(st.pc)
        exc = mk('excp', self.newid())
        handlers = bool(s.handlers)
        st_in = self.push(st, exc, False) if handlers else st
        body = self.block(s.body, st_in)
        if body is not None and s.orelse:
            body = self.block(s.orelse, body)
        outs = []
        if body is not None:
            outs.append(body)
        # raises inside the body are caught
        if handlers:
            for r in range(nr0, len(self.raises)):
                pass
            mid = self.weak_after(s.body, st, exc)
            for i, h in enumerate(s.handlers):
                hs = self.push(mid, exc, True)
                if len(s.handlers) > 1:
                    hc = mk('handler', exc, i)
                    hs = self.push(hs, hc, True)
                if h.name:
                    hs.env[(fr.fid, h.name)] = mk('unk', 'exc')
                e = self.block(h.body, hs)
                if e is not None:
                    outs.append(e)
        if s.finalbody:
            for x in fr.returns[n0:]:
                e = self.block(s.finalbody, x.state)
                if e is not None:
                    x.state = e
        if not outs:
            return None
        r, _ = self.merge_exits([Exit('t', o, NONE, s, None) for o in outs], plen)
        r = r.copy()
        if s.finalbody:
            r = self.block(s.finalbody, r)
        return r

    s_TryStar = s_Try

    def weak_after(self, body, st, exc):
        """State at a handler: names assigned in the body may or may not have been set."""
        r = st.copy()
        fr = self.frames[-1]
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    k = (fr.fid, x.id)
                    old = r.env.get(k, UNDEF)
                    r.env[k] = phi(mk('reached', exc, x.id), mk('unk', 'try:' + x.id), old)
        return r

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.notes.append(('expr', type(n).__name__, n))
            return mk('unk', type(n).__name__)
        return m(n, st)

    def evv(self, n, st):
        return self.val(self.ev(n, st), st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        v = self.lookup(n.id, st, n)
        return self.prune(v, st) if v.op == 'phi' and st.pc else v

    def prune(self, v, st, depth=5):
        """Drop the alternatives that the branch conditions exclude."""
        while v.op == 'phi':
            k = self.known(v.a[0], st)
            if k is None:
                if depth == 0:
                    return v
                x, y = [self.prune(w, State(pc=st.pc + ((v.a[0], side),)), depth - 1) if w.op == 'phi' else w for w, side in ((v.a[1], True), (v.a[2], False))]
                return v if x is v.a[1] and y is v.a[2] else phi(v.a[0], x, y)
            v = v.a[1] if k else v.a[2]
        return v

    def e_Attribute(self, n, st):
        base = self.ev(n.value, st)
        return self.get_attr(base, n.attr, st, n)

    def e_BinOp(self, n, st):
        a, b = self.evv(n.left, st), self.evv(n.right, st)
        return self.arith(type(n.op).__name__, a, b)

    def arith(self, op, a, b):
        if op == 'Mod' and a.op == 'const' and isinstance(a.py, str):
            return mk('fmt', a, b) if not (b.op == 'const' and isinstance(b.py, (int, str))) else binop(op, a, b)
        return binop(op, a, b)

    def e_UnaryOp(self, n, st):
        return unop(type(n.op).__name__, self.evv(n.operand, st))

    def e_BoolOp(self, n, st):
        vals = []
        isand = isinstance(n.op, ast.And)
        cur = st
        pc0 = st.pc
        for x in n.values:
            v = self.evv(x, cur)
            t = truth(v)
            vals.append((v, t))
            # later operands are evaluated under the earlier ones
            if t.op != 'const':
                cc, pol = t, isand
                while cc.op == 'not':
                    cc, pol = cc.a[0], not pol
                cur.pc = cur.pc + ((cc, pol),)
        st.pc = pc0
        if all(self.is_boolterm(t) for v, t in vals):
            return and_(*[t for v, t in vals]) if isand else or_(*[t for v, t in vals])
        r = vals[-1][0]
        for v, t in reversed(vals[:-1]):
            r = phi(t, r, v) if isand else phi(t, v, r)
        return r

    def is_boolterm(self, t):
        return True

    def e_Compare(self, n, st):
        left = self.evv(n.left, st)
        parts = []
        for op, c in zip(n.ops, n.comparators):
            right = self.evv(c, st)
            parts.append(cmpop(type(op).__name__, left, right))
            left = right
        return parts[0] if len(parts) == 1 else and_(*parts)

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        k = self.known(c, st)
        if k is True:
            return self.ev(n.body, st)
        if k is False:
            return self.ev(n.orelse, st)
        pc = st.pc
        cc, pol = c, True
        while cc.op == 'not':
            cc, pol = cc.a[0], not pol
        s1, s2 = st.copy(), st.copy()
        s1.pc = pc + ((cc, pol),)
        a = self.own(self.ev(n.body, s1), n.body, s1)
        s2.pc = pc + ((cc, not pol),)
        b = self.own(self.ev(n.orelse, s2), n.orelse, s2)
        if all(len(x) == len(y) == len(z) and all(x[k] is v and z.get(k) is v for k, v in y.items()) for x, y, z in
               ((s1.env, st.env, s2.env), (s1.heap, st.heap, s2.heap), (s1.cont, st.cont, s2.cont))):
            return phi(c, a, b)
        r = self.merge2(cc, s1, s2) if pol else self.merge2(cc, s2, s1)
        st.env, st.heap, st.cont = r.env, r.heap, r.cont
        return phi(c, a, b)

    def e_Tuple(self, n, st):
        return self.seq('tuple', n, st)

    def e_List(self, n, st):
        return self.seq('list', n, st)

    def e_Set(self, n, st):
        return self.seq('set', n, st)

    def seq(self, kind, n, st):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                c = st.cont.get(v, v)
                if c.op in ('list', 'tuple'):
                    out.extend(c.a)
                else:
                    out.append(mk('star', self.val(v, st)))
            else:
                out.append(self.own(self.ev(x, st), x, st))
        # references are kept so that identity survives in containers; pure values otherwise
        out = [self.simplify_ref(x, st) for x in out]
        return mk(kind, *out)

    def simplify_ref(self, x, st):
        return x

    def e_Dict(self, n, st):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append(('**', self.evv(v, st)))
            else:
                items.append((self.evv(k, st), self.own(self.ev(v, st), v, st)))
        return mk('dict', *items)

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            parts.append(self.evv(v, st) if not isinstance(v, ast.FormattedValue) else self.evv(v.value, st))
        return mk('fstr', *parts)

    def e_FormattedValue(self, n, st):
        return self.evv(n.value, st)

    def e_Lambda(self, n, st):
        f = Func(self.frames[-1].func.qual + '.<lambda>', n, self.frames[-1].func.mod, self.frames[-1].func)
        return self.closure(f, st)

    def e_Starred(self, n, st):
        return mk('star', self.evv(n.value, st))

    def e_NamedExpr(self, n, st):
        v = self.own(self.ev(n.value, st), n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Slice(self, n, st):
        f = lambda x: NONE if x is None else self.evv(x, st)
        return mk('slice', f(n.lower), f(n.upper), f(n.step))

    def ev_index(self, n, st):
        if isinstance(n, ast.Tuple):
            return mk('tuple', *[self.ev_index(x, st) for x in n.elts])
        return self.evv(n, st)

    def e_Subscript(self, n, st):
        base = self.ev(n.value, st)
        i = self.ev_index(n.slice, st)
        return self.index_value(base, i, st, n)

    def basic_index(self, i):
        """Index that yields a view (numpy basic indexing)."""
        if i.op == 'slice':
            return True
        if i.op == 'tuple':
            return all(self.basic_index(x) or x.op in ('const', 'iv', 'attr', 'param', 'bin', 'idx') for x in i.a) and \
                any(x.op == 'slice' or (x.op == 'const' and x.py is Ellipsis) for x in i.a)
        if i.op == 'const':
            return i.py is Ellipsis or i.py is None
        return False

    def index_value(self, base, i, st, node=None):
        c = st.cont.get(base, base)
        if base.op == 'obj' and i.op == 'const' and isinstance(i.py, str):
            return self.get_attr(base, i.py, st, node)
        if c.op in ('list', 'tuple', 'dict') and i.op == 'const':
            r = idx(c, i)
            if r.op != 'idx':
                return r
        if c.op == 'phi' and i.op == 'const' and all(x.op in ('tuple', 'list') for _, x in self.leaves(c)):
            return phi(c.a[0], self.index_value(c.a[1], i, st), self.index_value(c.a[2], i, st))
        if c.op in ('tuple', 'list') and i.op == 'slice' and all(x is NONE or (x.op == 'const' and isinstance(x.py, int)) for x in i.a):
            sl = slice(*[None if x is NONE else x.py for x in i.a])
            if not any(x.op == 'star' for x in c.a):
                return mk(c.op, *c.a[sl])
        if base.op in ('new', 'param', 'attr', 'view', 'glob', 'mu', 'aview') or (base.op == 'idx'):
            if c.op in ('range', 'comp', 'zip', 'enum') or (c.op == 'call' and c.a[0] == 'numpy.arange'):
                return idx(c, i)
            if self.basic_index(i):
                return self.view(base, ('idx', i))
            if base.op == 'new':
                # element of a local container / array
                v = idx(self.val(base, st), i)
                return v
            if i.op in ('const', 'iv', 'attr', 'idx', 'bin', 'param', 'phi', 'un', 'last', 'mu', 'loop') or i.op == 'call':
                bv = base
                if base in st.cont or base.op == 'view':
                    return idx(self.val(base, st), i)
                t = mk('idx', bv, i)
                return self.assume.get(t, t)
            return idx(self.val(base, st), i)
        return idx(self.val(base, st), i)

    def comp_common(self, n, st, kind, build):
        gens = n.generators
        st2 = st
        fr = self.frames[-1]
        saved = {}
        opened = 0
        bounds = []
        conds = []
        # concrete unrolling for a single generator over a literal
        if len(gens) == 1:
            it = self.ev(gens[0].iter, st2)
            items = self.iter_items(it, st2)
            if items is not None and len(items) <= self.unroll and kind in ('list', 'gen', 'set'):
                outs = []
                names = [x.id for x in ast.walk(gens[0].target) if isinstance(x, ast.Name)]
                old = {k: st2.env.get((fr.fid, k)) for k in names}
                fr.locals |= set(names)
                ok = True
                for x in items:
                    self.assign(gens[0].target, x, st2, n)
                    cs = [self.cond(c, st2) for c in gens[0].ifs]
                    if all(c is TRUE for c in cs):
                        outs.append(self.own(build(st2), n, st2))
                    elif any(c is FALSE for c in cs):
                        continue
                    else:
                        ok = False
                        break
                for k, v in old.items():
                    if v is None:
                        st2.env.pop((fr.fid, k), None)
                    else:
                        st2.env[(fr.fid, k)] = v
                if ok:
                    return mk('list' if kind != 'set' else 'set', *outs)
        pc0 = st2.pc
        depth0 = len(self.loops)
        for g in gens:
            it = self.ev(g.iter, st2)
            bound = self.bound_of(it, st2)
            iv = mk('iv', bound, len(self.loops))
            names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            for k in names:
                if k not in saved:
                    saved[k] = st2.env.get((fr.fid, k))
            fr.locals |= set(names)
            self.loops.append((bound, iv, n))
            opened += 1
            self.assign(g.target, self.loop_elem(it, st2, iv), st2, n)
            bounds.append(bound)
            for c in g.ifs:
                cc = self.cond(c, st2)
                conds.append(cc)
                if cc.op != 'const':
                    k, pol = cc, True
                    while k.op == 'not':
                        k, pol = k.a[0], not pol
                    st2.pc = st2.pc + ((k, pol),)
        v = self.val(build(st2), st2)
        for _ in range(opened):
            self.loops.pop()
        st2.pc = pc0
        for k, old in saved.items():
            if old is None:
                st2.env.pop((fr.fid, k), None)
            else:
                st2.env[(fr.fid, k)] = old
        conds = tuple(c for c in conds if c is not TRUE)
        kk = 'list' if kind == 'gen' else kind
        for b, d in reversed(list(zip(bounds, range(depth0, depth0 + len(bounds))))):
            v = mk('comp', kk, v, b, d, conds)
            conds = ()
        if len(bounds) > 1 and kind in ('list', 'gen'):
            return mk('call', 'itertools.chain.from_iterable', (v,), ())     # one sequence, not a sequence of sequences
        return v

    def e_ListComp(self, n, st):
        return self.comp_common(n, st, 'list', lambda s: self.ev(n.elt, s))

    def e_GeneratorExp(self, n, st):
        return self.comp_common(n, st, 'gen', lambda s: self.ev(n.elt, s))

    def e_SetComp(self, n, st):
        return self.comp_common(n, st, 'set', lambda s: self.ev(n.elt, s))

    def e_DictComp(self, n, st):
        return self.comp_common(n, st, 'dict', lambda s: mk('tuple', self.evv(n.key, s), self.evv(n.value, s)))

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st):
        fn = self.ev(n.func, st) if not isinstance(n.func, ast.Attribute) else None
        recv = None
        meth = None
        if fn is None:
            recv = self.ev(n.func.value, st)
            if recv.op in ('mod', 'ext', 'class', 'obj') or (recv.op == 'param' and self.self_method(recv, n.func.attr)):
                fn = self.get_attr(recv, n.func.attr, st, n.func)
            elif recv.op == 'call' and recv.a[0] == 'super':
                fn = self.super_method(n.func.attr, st)
                if fn is None:
                    fn = None
                    meth = n.func.attr
            else:
                v = st.heap.get((recv, n.func.attr)) if recv.op != 'phi' else None
                if v is not None and v.op in ('func', 'clo', 'ext'):
                    fn = v
                else:
                    meth = n.func.attr
        args, kws = [], []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                c = st.cont.get(v, v)
                if c.op in ('list', 'tuple') and not any(x.op == 'star' for x in c.a):
                    args.extend(c.a)
                else:
                    args.append(mk('star', self.val(v, st)))
            else:
                args.append(self.own_arg(self.ev(a, st), a, st))
        for k in n.keywords:
            v = self.own_arg(self.ev(k.value, st), k.value, st)
            if k.arg is None:
                c = self.val(v, st)
                if c.op == 'dict' and all(isinstance(x, T) and x.op == 'const' for x, _ in c.a):
                    for x, y in c.a:
                        kws.append((x.py, y))
                else:
                    kws.append(('**', v))
            else:
                kws.append((k.arg, v))
        if meth is not None:
            return self.method_call(recv, meth, args, kws, n, st)
        return self.call(fn, args, kws, n, st, recv)

    def own_arg(self, v, node, st):
        if v.op in ('list', 'dict', 'set') or (v.op in ('bin', 'call', 'meth', 'un', 'comp') and not self.scalarish(v)):
            return self.fresh(v, st)
        return v

    def super_method(self, attr, st):
        f = self.frames[-1].func
        if f.cls is None:
            return None
        for b in f.cls.bases:
            bb = self.base_class(f.cls, b)
            if bb:
                m = self.class_attr(bb, attr)
                if m and m[0] == 'func':
                    selfv = st.env.get((self.frames[-1].fid, f.args[0]))
                    return mk('bound', selfv, m[1])
        return None

    def logcall(self, **k):
        if not self.log:
            return None
        self.callseq += 1
        c = Call(loops=tuple(self.loops), task=tuple(self.tasks), stack=tuple(f.func.qual for f in self.frames),
                 func=self.frames[-1].func, order=self.callseq, **k)
        self.calls.append(c)
        return c

    def vals(self, args, st):
        return tuple(self.val(a, st) for a in args)

    def kvals(self, kws, st):
        return tuple(sorted(((k, self.val(v, st)) for k, v in kws), key=lambda x: x[0]))

    def bind(self, f, args, kws, selfv=None):
        """Parameter -> argument term; (mapping, problems)."""
        m, prob = {}, []
        names = list(f.args)
        if selfv is not None and names:
            m[names[0]] = selfv
            names = names[1:]
        star = False
        extra = []
        i = 0
        for a in args:
            if a.op == 'star':
                star = True
                continue
            if i < len(names):
                m[names[i]] = a
                i += 1
            else:
                extra.append(a)
        if extra and not f.vararg:
            prob.append('too many positional arguments (%d given, %d accepted)' % (len(args), len(names)))
        if f.vararg:
            m[f.vararg] = mk('tuple', *extra)
        rest = []
        dstar = False
        for k, v in kws:
            if k == '**':
                dstar = True
                rest.append(('**', v))
                continue
            if k in f.posonly:
                prob.append('positional-only argument %r passed by keyword' % k)
            if k in f.args or k in f.kwonly:
                if k in m:
                    prob.append('argument %r given twice' % k)
                m[k] = v
            elif f.kwarg:
                rest.append((const(k), v))
            else:
                prob.append('unexpected keyword argument %r' % k)
        if f.kwarg:
            m[f.kwarg] = mk('dict', *rest)
        missing = [p for p in f.args + f.kwonly if p not in m and p not in f.defaults]
        if missing and not star and not dstar:
            prob.append('missing argument(s) %s' % ', '.join(missing))
        return m, prob, star or dstar

    def call(self, fn, args, kws, n, st, recv=None):
        op = fn.op
        if op == 'phi':
            lv = [l for _, l in self.leaves(fn)]
            if all(l.op in ('func', 'clo', 'ext', 'class', 'bound') for l in lv) and len(lv) <= 4:
                rs = []
                # every candidate is analysed under its own guard; states are merged
                base = st.copy()
                outs = []
                for c, l in self.leaves(fn):
                    s2 = self.push(base.copy(), c, True) if c.op != 'const' else base.copy()
                    v = self.own(self.call(l, args, kws, n, s2, recv), n, s2)
                    self._noreturn = False
                    outs.append((c, s2, v))
                cur_s, cur_v = outs[-1][1], outs[-1][2]
                for c, s2, v in reversed(outs[:-1]):
                    cur_s = self.merge2(c, s2, cur_s)
                    cur_v = phi(c, v, cur_v)
                st.env, st.heap, st.cont, st.pc = cur_s.env, cur_s.heap, cur_s.cont, base.pc
                return cur_v
        if op == 'func':
            return self.call_func(self.repo.funcs[fn.a[0]], args, kws, n, st, None, None)
        if op == 'bound':
            return self.call_func(self.repo.funcs[fn.a[1]], args, kws, n, st, fn.a[0], None)
        if op == 'clo':
            f, parent, dv = self.closures[fn]
            return self.call_func(f, args, kws, n, st, None, (parent, dv))
        if op == 'class':
            return self.instantiate(fn.a[0], args, kws, n, st)
        if op == 'ext':
            return self.call_ext(fn.a[0], args, kws, n, st)
        if op == 'partial':
            return self.call(fn.a[0], list(fn.a[1]) + list(args), list(fn.a[2]) + list(kws), n, st)
        self.logcall(fn=fn, qual=None, args=tuple(args), kw=tuple(kws), node=n, pc=st.pc)
        return mk('call', self.val(fn, st) if isinstance(fn, T) and fn.op == 'new' else fn, self.vals(args, st), self.kvals(kws, st))

    def instantiate(self, cq, args, kws, n, st):
        o = self.note_alloc(mk('obj', cq, self.newid()))
        init = self.class_attr(cq, '__init__')
        if not args and not kws and not self.repo.classes[cq].bases and cq == 'falco.config.Object.Object':
            self.bare.add(o)        # nothing but what is stored in it later
        self.logcall(fn=mk('class', cq), qual=cq, args=tuple(args), kw=tuple(kws), node=n, pc=st.pc, result=o)
        c = self.repo.classes[cq]
        if init and init[0] == 'func':
            f = self.repo.funcs[init[1]]
            if self.policy(f.qual, len(self.frames)) == 'inline' and not self.recursive(f):
                self.call_func(f, args, kws, n, st, o, None)
            else:
                m, prob, star = self.bind(f, args, kws, o)
                st.heap[(o, '__args__')] = mk('tuple', *[mk('tuple', const(k), self.val(v, st)) for k, v in sorted(m.items()) if k != f.args[0]])
                self.apply_summary(f, m, st, n)
        else:
            st.heap[(o, '__args__')] = mk('tuple', *self.vals(args, st))
            # dataclass-like: positional annotated fields
            fields = [b.target.id for b in c.node.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
            for k, v in zip(fields, args):
                st.heap[(o, k)] = v
            for k, v in kws:
                st.heap[(o, k)] = v
        return o

    def recursive(self, f):
        return sum(1 for fr in self.frames if fr.func is f) > 0 or len(self.frames) > 14

    def call_func(self, f, args, kws, n, st, selfv, clo):
        if f.cls is not None and selfv is None and not f.static and False:
            pass
        m, prob, star = self.bind(f, args, kws, selfv)
        rec = self.logcall(fn=mk('func', f.qual), qual=f.qual, args=tuple(args), kw=tuple(kws), node=n, pc=st.pc, bound=None, recv=selfv)
        if prob and self.log:
            self.notes.append(('bind', f.qual, n, self.frames[-1].func, prob, st.pc))
        full = dict(m)
        for p in f.args + f.kwonly:
            if p not in full:
                if p in f.defaults:
                    if clo and p in clo[1]:
                        full[p] = clo[1][p]
                    else:
                        full[p] = self.default_value(f, p, st)
                else:
                    full[p] = mk('unk', 'arg:' + p)
        if f.vararg and f.vararg not in full:
            full[f.vararg] = mk('tuple')
        if f.kwarg and f.kwarg not in full:
            full[f.kwarg] = mk('dict')
        if rec is not None:
            rec.bound = full
            rec.state = {k: self.val(v, st) for k, v in full.items()} if f.qual.startswith('falco.check.') else None
        pol = 'inline' if clo is not None or f.qual in VALIDATORS or copy_helper(f) else self.policy(f.qual, len(self.frames))
        if pol == 'inline' and not self.recursive(f):
            st2, ret, exits = self.exec_function(f, full, st, clo[0] if clo else None)
            if st2 is None:
                self._noreturn = True
                return UNDEF
            st.env, st.heap, st.cont, st.pc = st2.env, st2.heap, st2.cont, st2.pc
            if rec is not None:
                rec.result = ret
            return ret
        bv = tuple((k, self.overlay(self.val(v, st), v, f, st) if self.with_state else self.val(v, st)) for k, v in sorted(full.items()))
        res = mk('call', f.qual, (), bv)
        if f.qual.startswith('falco.proper.'):
            self.proper_call(f, full, res, bv, st, n)
        if f.name in WAVEFRONT_MAKERS:
            for k in [k for k in st.heap if k[0] is res]:
                del st.heap[k]              # a new wavefront, whatever happened to an earlier one
        al = self.apply_summary(f, full, st, n, bv)
        if isinstance(al, tuple) and al[0] == 'is':
            res = al[1]
        elif isinstance(al, tuple):
            res = mk('tuple', *[full[x] if x in full else idx(res, const(i)) for i, x in enumerate(al[1])])
        elif al is not None:
            res = mk('aview', res, al)   # may alias an argument
        if rec is not None:
            rec.result = res
        return res

    def proper_call(self, f, full, res, bv, st, n):
        """PROPER's functions change the wavefront that they are given."""
        w = proper_writes(self.repo, f)
        if not w or not f.args or f.args[0] not in full:
            return
        attrs, mult = w
        wf = full[f.args[0]]
        if wf.op in ('const', 'unk'):
            return
        for c, leaf in self.leaves(wf):
            for a in sorted(attrs):
                old = self.val(self.get_attr_quiet(leaf, a, st), st)
                rest = tuple((k, self.val(leaf, st) if k == f.args[0] else x) for k, x in bv)
                if mult:
                    new = binop('Mult', old, mk('call', f.qual + '#factor', (), rest))
                else:
                    new = mk('eff', f.qual, a, rest, f.args[0], old)
                st.heap[(leaf, a)] = new if c is None or c is TRUE else phi(c, new, old)
                self.effect('attr', leaf, a, None, st.heap[(leaf, a)], st, n, 'via ' + f.qual)

    def overlay(self, val, ref, f, st):
        """What a called function is given: the argument together with the changes made so far to what it reads of it."""
        names = self.repo.readnames(f)
        if val.op == 'snap':
            return mk('snap', val.a[0], tuple((a, x) for a, x in val.a[1] if a in names))
        if val.op == 'phi' and ref.op == 'phi':
            return phi(val.a[0], self.overlay(val.a[1], ref.a[1], f, st), self.overlay(val.a[2], ref.a[2], f, st))
        if ref.op not in ('param', 'attr', 'idx', 'glob', 'scopy', 'mu', 'call', 'aview'):
            return val

        held = {}           # shallow copies held in attributes: changes to them are changes to what is passed
        for (b, a), v in st.heap.items():
            if v.op == 'scopy':
                held.setdefault(v, (b, a))
        under = ref.a[0] if ref.op == 'scopy' else None

        def chain(b):
            path, own = [], True
            for _ in range(12):
                if b is ref:
                    return tuple(reversed(path)), own
                if b is under:
                    return tuple(reversed(path)), False
                if b.op == 'attr' or b.op == 'idx':
                    path.append(b.a[1])
                    b = b.a[0]
                elif b in held:
                    path.append(held[b][1])
                    b = held[b][0]
                else:
                    return None, own
            return None, own
        items, low = {}, {}
        for (b, a), v in st.heap.items():
            if a in names and a not in CACHES:
                p, own = chain(b)
                if p is not None:
                    x = self.val(v, st)
                    if x is not mk('attr', b, a):
                        (items if own and (b is ref or b in held) else low)[p + (a,)] = x
        for k, x in low.items():
            items.setdefault(k, x)
        for k, v in st.cont.items():
            if k.op in ('attr', 'idx') and k is not ref and v is not k:
                p, own = chain(k)
                if p and own and not (k.op == 'attr' and (k.a[0], k.a[1]) in st.heap) and all(y in names for y in p if isinstance(y, str)):
                    items[p] = v
        if not items:
            return val
        return mk('with', val, tuple(sorted(items.items(), key=lambda kv: [y if isinstance(y, str) else show(y, 6) for y in kv[0]])))

    def default_value(self, f, p, st):
        d = f.defaults[p]
        if isinstance(d, ast.Constant):
            return const(d.value)
        if isinstance(d, (ast.List, ast.Dict, ast.Tuple)) and not (getattr(d, 'elts', None) or getattr(d, 'keys', None)):
            if isinstance(d, ast.Tuple):
                return mk('tuple')
            return mk('default', f.qual, p, 'list' if isinstance(d, ast.List) else 'dict')
        if isinstance(d, ast.Name) or isinstance(d, ast.Attribute):
            fr = Frame(-1, f, None)
            fr.locals = set()
            self.frames.append(fr)
            try:
                v = self.ev(d, st)
            finally:
                self.frames.pop()
            return v
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
            try:
                return const(ast.literal_eval(d))
            except Exception:
                pass
        return mk('default', f.qual, p, 'expr')

    def apply_summary(self, f, full, st, n, bv=()):
        """Apply the write effects of an opaque repository call. Returns an aliased argument term, if the result may alias one."""
        if self.summaries is None:
            return None
        s = self.summaries.get(f)
        if s is None:
            return None
        for w in s.writes:
            if w.param not in full:
                continue
            if self.with_state and f.qual not in IDEMPOTENT and w.passes(IDEMPOTENT):
                continue        # constraining a command that is used, and caches of what follows from it
            base = full[w.param]
            self.havoc(base, w, f, st, n, bv)
        for g in s.globals:
            if self.log:
                self.effects.append(Effect(kind='global', root=g.root, path=g.path, base=g.base, attr=g.attr, index=None, value=None, node=n,
                                           func=self.frames[-1].func, pc=st.pc, loops=tuple(self.loops), task=tuple(self.tasks),
                                           stack=tuple(x.func.qual for x in self.frames) + (f.qual,), how='via ' + f.qual, chain=g))
        if s.ret_param and s.ret_param in full:
            return ('is', full[s.ret_param])
        if s.ret_tuple and any(x in full for x in s.ret_tuple):
            return ('tuple', s.ret_tuple)
        out = []
        for p, parts in s.ret_alias:
            if p in full and full[p].op != 'const':
                t = full[p]
                for a in parts:
                    t = mk('idx', t, mk('any')) if a == '[]' else self.get_attr_quiet(t, a, st)
                if t.op != 'const' and t not in out:
                    out.append(t)
        if not out:
            return None
        r = out[0]
        for i, o in enumerate(out[1:]):
            r = phi(mk('mayalias', f.qual, i), r, o)
        return r

    def havoc(self, base, w, f, st, n, bv):
        for c, leaf in self.leaves(base):
            t = leaf
            parts = w.parts
            for p in parts[:-1] if w.kind == 'attr' else parts:
                if p == '[]':
                    t = mk('idx', t, mk('any'))
                else:
                    t = self.get_attr_quiet(t, p, st)
            if w.kind == 'attr':
                a = parts[-1]
                old = st.heap.get((t, a), mk('attr', t, a))
                val = mk('eff', f.qual, w.path, tuple(x for x in bv), w.param, old)
                st.heap[(t, a)] = val
                self.effect('attr', t, a, None, val, st, n, 'via ' + f.qual)
            else:
                for c2, l2 in self.leaves(t):
                    b2 = l2
                    while b2.op in ('view', 'aview'):
                        b2 = b2.a[0] if b2.op == 'view' else b2.a[1]
                    for c3, l3 in self.leaves(b2):
                        val = mk('eff', f.qual, w.path, tuple(x for x in bv), w.param, self.val(l3, st))
                        st.cont[l3] = val
                        self.effect('inplace', l3, None, None, val, st, n, 'via ' + f.qual)
            if self.log and self.effects:
                self.effects[-1].chain = w

    def get_attr_quiet(self, t, p, st):
        lg, self.record_reads = self.record_reads, False
        try:
            return self.get_attr(t, p, st, None)
        finally:
            self.record_reads = lg

    # ---- methods on unknown receivers
    def method_call(self, recv, meth, args, kws, n, st):
        rv = self.val(recv, st)
        rec = self.logcall(fn=None, qual='.' + meth, args=tuple(args), kw=tuple(kws), node=n, pc=st.pc, recv=recv)
        if meth in MAPPERS and args and args[0].op in ('func', 'clo', 'partial', 'bound') or \
                (meth in MAPPERS and args and args[0].op == 'phi' and any(l.op in ('func', 'clo') for _, l in self.leaves(args[0]))):
            r = self.mapper(meth, args, kws, n, st, recv)
            if rec is not None:
                rec.result = r
            return r
        if recv.op == 'phi' and all(l.op == 'obj' or l.op == 'class' for _, l in self.leaves(recv)):
            pass
        if meth in MUTATORS and not (meth in ('add', 'write', 'put', 'update', 'insert', 'remove') and rv.op in ('ext',)):
            return self.mutator(recv, rv, meth, args, kws, n, st)
        if meth == 'copy' and not args:
            return self.fresh(rv, st)
        if meth in ('upper', 'lower', 'casefold', 'strip') and rv.op == 'const' and isinstance(rv.py, str) and not args:
            return const(getattr(rv.py, meth)())
        if meth in ('startswith', 'endswith') and rv.op == 'const' and len(args) == 1 and args[0].op == 'const':
            return const(getattr(rv.py, meth)(args[0].py))
        if meth in VIEW_METHODS or (meth == 'astype' and any(k == 'copy' for k, _ in kws)):
            return self.view(recv, ('meth', meth, self.vals(args, st), self.kvals(kws, st)))
        if meth in ('items', 'keys', 'values', 'get') and rv.op == 'dict' and all(isinstance(k, T) for k, _ in rv.a):
            if meth == 'get' and args and args[0].op == 'const':
                for k, v in reversed(rv.a):
                    if k is args[0]:
                        return v
                if all(k.op == 'const' for k, _ in rv.a):
                    return args[1] if len(args) > 1 else NONE
        t = mk('meth', meth, rv, self.vals(args, st), self.kvals(kws, st))
        if any(k == 'out' for k, _ in kws):
            for k, v in kws:
                if k == 'out':
                    self.inplace(v, None, t, st, n, 'out')
                    return v
        return t

    def mutator(self, recv, rv, meth, args, kws, n, st):
        av = self.vals(args, st)
        if meth == 'append' and len(args) == 1:
            a = args[0] if args[0].op in ('obj', 'new', 'clo', 'func') and rv.op == 'list' else av[0]
            cont = st.cont.get(recv, rv)
            if cont.op == 'list':
                new = mk('list', *(cont.a + (a,)))
            else:
                new = mk('appended', rv, av[0])
            self.inplace(recv, None, new, st, n, meth)
            return NONE
        if meth == 'extend' and len(args) == 1 and rv.op == 'list' and av[0].op in ('list', 'tuple'):
            self.inplace(recv, None, mk('list', *(rv.a + av[0].a)), st, n, meth)
            return NONE
        if meth == 'update' and rv.op == 'dict' and len(args) == 1 and av[0].op == 'dict':
            d = rv
            for k, v in av[0].a:
                d = upd(d, k, v) if isinstance(k, T) else mk('dict', *(d.a + ((k, v),)))
            self.inplace(recv, None, d, st, n, meth)
            return NONE
        if meth in ('pop',) and rv.op == 'dict':
            self.inplace(recv, None, mk('mut', meth, rv, av), st, n, meth)
            return mk('meth', meth, rv, av, ())
        if recv.op in ('ext', 'mod', 'class'):
            return mk('meth', meth, rv, av, self.kvals(kws, st))
        self.inplace(recv, None, mk('mut', meth, rv, av + tuple(v for k, v in self.kvals(kws, st))), st, n, meth)
        return mk('meth', meth, rv, av, self.kvals(kws, st)) if meth in ('pop', 'popitem', 'setdefault') else NONE

    def mapper(self, meth, args, kws, n, st, recv):
        """executor.map(f, xs...) / pool.starmap(f, tuples) / submit(f, a...)  evaluated as a comprehension."""
        fn = args[0]
        tid = (n, self.newid(), self.pool_kind(recv, st))
        if meth in ('submit', 'apply_async', 'apply'):
            a = list(args[1:])
            if meth != 'submit' and a:
                c = st.cont.get(a[0], a[0])
                a = list(c.a) if c.op in ('list', 'tuple') else [mk('star', self.val(a[0], st))]
            self.tasks.append(tid)
            r = self.call(fn, a, kws if meth == 'submit' else [], n, st)
            self.tasks.pop()
            return mk('future', self.val(r, st))
        if len(args) < 2:
            return mk('unk', 'map')
        seqs = args[1:] if meth == 'map' and not self.is_pool(recv) else [args[1]]
        its = [self.iter_items(x, st) for x in seqs]
        if all(i is not None for i in its) and all(len(i) <= self.unroll for i in its):
            outs = []
            for tup in zip(*its):
                a = list(tup)
                if meth.startswith('starmap'):
                    c = st.cont.get(a[0], a[0])
                    a = list(c.a) if c.op in ('tuple', 'list') else [mk('star', self.val(a[0], st))]
                self.tasks.append(tid)
                outs.append(self.own(self.call(fn, a, [], n, st), n, st))
                self.tasks.pop()
            return mk('list', *outs)
        bound = self.bound_of(seqs[0], st)
        depth = len(self.loops)
        iv = mk('iv', bound, depth)
        self.loops.append((bound, iv, n))
        self.tasks.append(tid)
        a = [self.loop_elem(x, st, iv) for x in seqs]
        if meth.startswith('starmap'):
            e = self.val(a[0], st)
            if e.op == 'tuple':
                a = list(e.a)
            else:
                f = self.repo.funcs.get(fn.a[0]) if fn.op == 'func' else None
                a = [idx(e, const(i)) for i in range(len(f.args))] if f is not None else [mk('star', e)]
        r = self.call(fn, a, [], n, st)
        self._noreturn = False
        r = self.val(r, st)
        self.tasks.pop()
        self.loops.pop()
        return mk('comp', 'list', r, bound, depth, ())

    PROCESS_POOLS = ('ProcessPoolExecutor', 'multiprocessing.Pool', 'multiprocessing.pool.Pool', 'billiard.Pool', 'get_context')

    def pool_kind(self, recv, st):
        """'process': every task works on its own copies; 'serial': builtin map; otherwise the tasks share memory."""
        if recv is None:
            return 'serial'
        t = self.val(recv, st)
        names = [x.a[0] for x in walk(t) if x.op == 'call' and isinstance(x.a[0], str)] + \
                [x.a[0].a[0] for x in walk(t) if x.op == 'call' and isinstance(x.a[0], T) and x.a[0].op == 'ext']
        if any('ThreadPool' in q or 'dummy' in q for q in names):
            return 'thread'
        return 'process' if any(w in q for q in names for w in self.PROCESS_POOLS) else 'thread'

    def is_pool(self, recv):
        return False

    # ---- external calls
    def call_ext(self, name, args, kws, n, st):
        rec = self.logcall(fn=mk('ext', name), qual=name, args=tuple(args), kw=tuple(kws), node=n, pc=st.pc)
        av = self.vals(args, st)
        kv = self.kvals(kws, st)
        if name in ('range', 'numpy.arange') and 1 <= len(av) <= 2 and not kv and name == 'range':
            lo, hi = (const(0), av[0]) if len(av) == 1 else av
            return mk('range', lo, hi)
        if name == 'len' and len(av) == 1:
            return length(av[0])
        if name == 'enumerate' and args:
            start = av[1] if len(av) > 1 else next((v for k, v in kv if k == 'start'), const(0))
            return mk('enum', self.seqref(args[0], st), start)
        if name == 'zip':
            return mk('zip', *[self.seqref(a, st) for a in args])
        if name in ('list', 'tuple') and len(args) == 1:
            c = st.cont.get(args[0], args[0])
            if c.op in ('list', 'tuple'):
                return mk(name, *c.a)
            items = self.iter_items(args[0], st)
            if items is not None and len(items) <= 64:
                return mk(name, *items)
            if c.op in ('comp', 'range', 'zip'):
                return c
        if name in ('list', 'tuple', 'dict') and not args and not kws:
            return mk(name)
        if name == 'dict' and not args:
            return mk('dict', *[(const(k), v) for k, v in kws if k != '**'])
        if name == 'getattr' and len(args) >= 2 and av[1].op == 'const' and isinstance(av[1].py, str):
            return self.get_attr(args[0], av[1].py, st, n)
        if name == 'getattr' and len(args) >= 2:
            return mk('attrdyn', args[0], av[1])
        if name == 'setattr' and len(args) == 3 and av[1].op == 'const':
            self.set_attr(args[0], av[1].py, args[2], st, n)
            return NONE
        if name == 'setattr' and len(args) == 3:
            self.effect('attr', args[0], '*', None, av[2], st, n, 'setattr')
            return NONE
        if name == 'hasattr' and len(args) == 2 and av[1].op == 'const':
            return self.has_attr(args[0], av[1], st)
        if name in ('copy.copy', 'copy.deepcopy', 'copy') and len(args) == 1:
            a = args[0]
            if a.op == 'obj' or a.op in ('param', 'attr') and False:
                return self.copy_obj(a, st, name)
            if name.endswith('deepcopy') or av[0].op not in ('param', 'attr', 'snap'):
                return self.fresh(av[0], st)
            return self.note_alloc(mk('scopy', a, self.newid()))     # shallow copy: attributes are shared
        if name == 'functools.partial' and args:
            return mk('partial', args[0], tuple(args[1:]), tuple(kws))
        if name in ('int', 'float', 'str', 'bool', 'abs', 'round', 'max', 'min') and len(av) >= 1 and all(x.op == 'const' for x in av) and not kv:
            try:
                f = {'int': int, 'float': float, 'str': str, 'bool': bool, 'abs': abs, 'round': round, 'max': max, 'min': min}[name]
                return const(f(*[x.py for x in av]))
            except Exception:
                pass
        if name == 'isinstance' and len(av) == 2 and av[0].op == 'const' and av[1].op == 'ext':
            ty = {'str': str, 'int': int, 'float': float, 'list': list, 'dict': dict, 'tuple': tuple, 'bool': bool}.get(av[1].a[0])
            if ty is not None:
                return const(isinstance(av[0].py, ty))
        if name in VIEW_CALLS and args:
            if av[0].op in ('const',) or (args[0].op == 'new' and name in ('numpy.asarray',) and st.cont[args[0]].op in ('list', 'tuple')):
                return mk('call', name, av, kv)
            if args[0].op in ('new', 'param', 'attr', 'view', 'aview', 'phi', 'idx', 'glob'):
                return self.view(args[0], ('call', name, av, 0, kv))
        if name == 'numpy.array' and any(k == 'copy' and v is FALSE for k, v in kv) and args:
            return self.view(args[0], ('call', name, av, 0, kv))
        t = mk('call', name, av, kv)
        if name in CALL_MUTATES and len(args) > CALL_MUTATES[name]:
            i = CALL_MUTATES[name]
            self.inplace(args[i], None, mk('mut', name, av[i], tuple(x for j, x in enumerate(av) if j != i)), st, n, name)
            return NONE
        for k, v in kws:
            if k in ('out', 'overwrite_x') and v.op not in ('const',):
                self.inplace(v, None, t, st, n, 'out')
                return v
        # ufuncs with a positional output: numpy.multiply(a, b, c)
        if name in ('numpy.multiply', 'numpy.add', 'numpy.subtract', 'numpy.divide', 'numpy.power') and len(args) == 3:
            self.inplace(args[2], None, mk('call', name, av[:2], kv), st, n, 'out')
            return args[2]
        if name in ('map',) and len(args) >= 2 and args[0].op in ('func', 'clo'):
            return self.mapper('map', args, kws, n, st, None)
        if name in ('sys.exit', 'exit', 'quit', 'os._exit'):
            self._noreturn = True
            return UNDEF
        if rec is not None:
            rec.result = t
        return t

    def seqref(self, a, st):
        c = st.cont.get(a)
        if c is not None and c.op in ('list', 'tuple', 'comp', 'range'):
            return c
        return a

    def copy_obj(self, a, st, name):
        o = self.note_alloc(mk('obj', a.a[0], self.newid()))
        for (b, k), v in list(st.heap.items()):
            if b is a:
                st.heap[(o, k)] = self.fresh(self.val(v, st), st) if name.endswith('deepcopy') else v
        return o


class Result:
    def __init__(self, ip, func, state, ret, exits):
        self.ip, self.func, self.state, self.ret, self.exits = ip, func, state, ret, exits
        self.effects, self.calls, self.reads, self.raises, self.drops = ip.effects, ip.calls, ip.reads, ip.raises, ip.drops

    def final(self, base, *attrs):
        """Value of an access path at the merged normal exit."""
        t = base
        for a in attrs:
            t = self.ip.get_attr_quiet(t, a, self.state)
        return self.ip.val(t, self.state)

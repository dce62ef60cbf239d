"""C19: files and workers are released, and output goes only where and when asked."""
import ast

from .. import selftest
from ..terms import walk
from .c24 import own, own_top

R1 = 'released-on-every-path'
R2 = 'written-where-asked'
R3 = 'written-when-asked'

OPENERS = {'open', 'io.open', 'gzip.open', 'bz2.open', 'lzma.open', 'astropy.io.fits.open', 'tarfile.open', 'zipfile.ZipFile', 'h5py.File', 'os.fdopen',
           'multiprocessing.Pool', 'multiprocessing.pool.Pool', 'multiprocessing.pool.ThreadPool', 'multiprocessing.dummy.Pool', 'multiprocessing.Manager',
           'concurrent.futures.ProcessPoolExecutor', 'concurrent.futures.ThreadPoolExecutor', 'concurrent.futures.process.ProcessPoolExecutor',
           'concurrent.futures.thread.ThreadPoolExecutor', 'tempfile.TemporaryFile', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryDirectory',
           'numpy.memmap', 'shelve.open', 'subprocess.Popen'}
OPENER_TAILS = ('.open',)
CLOSERS = {'close', 'terminate', 'shutdown', 'cleanup', '__exit__', 'join', 'kill'}

# writers: which argument holds the path
WRITERS = {'numpy.save': 0, 'numpy.savez': 0, 'numpy.savez_compressed': 0, 'numpy.savetxt': 0, 'scipy.io.savemat': 0, 'astropy.io.fits.writeto': 0,
           'astropy.io.fits.append': 0, 'astropy.io.fits.update': 0, 'matplotlib.pyplot.savefig': 0, 'matplotlib.pyplot.imsave': 0, '.savefig': 0,
           '.writeto': 0, '.write_text': -1, '.write_bytes': -1, '.touch': -1, '.mkdir': -1, '.unlink': -1, '.rmdir': -1, '.tofile': 0,
           'os.makedirs': 0, 'os.mkdir': 0, 'os.remove': 0, 'os.unlink': 0, 'os.rmdir': 0, 'os.rename': 1, 'os.replace': 1, 'os.truncate': 0,
           'shutil.rmtree': 0, 'shutil.copy': 1, 'shutil.copyfile': 1, 'shutil.copytree': 1, 'shutil.move': 1, 'scipy.sparse.save_npz': 0,
           'numpy.memmap': 0, 'pandas.DataFrame.to_csv': 0, 'os.symlink': 1, 'os.link': 1, 'falco.proper.prop_fits_write.prop_fits_write': 0,
           'falco.proper.prop_fits_write': 0, 'imageio.imwrite': 0}
DIRECTORIES = ('brief', 'ws', 'jac')
# the directory and the save option of everything that is written without the caller naming a file
WORKSPACE = 'ws'
OPTION = {'ws': 'flagSaveWS'}
CACHE = {'falco.thinfilm.gen_complex_trans_table': 'data/material'}


def mode_of(c):
    """The mode a file is opened in, None when it is not a literal."""
    for k, v in c.kw or ():
        if k == 'mode':
            return v.py if v.op == 'const' else None
    if len(c.args) > 1:
        return c.args[1].py if c.args[1].op == 'const' else None
    return 'r'


def writes(c):
    """The path term of what this call creates or alters, or None."""
    q = c.qual or ''
    kw = dict(c.kw or ())
    if q in ('open', 'io.open', 'gzip.open', 'bz2.open', '.open'):
        m = mode_of(c) if q != '.open' else (c.args[0].py if c.args and c.args[0].op == 'const' else 'r')
        if m is not None and not set(str(m)) & set('wax+'):
            return None
        if q == '.open':
            return c.recv
        return c.args[0] if c.args else kw.get('file')
    if q in WRITERS:
        k = WRITERS[q]
        if k < 0:
            return c.recv
        if len(c.args) > k:
            return c.args[k]
        for n in ('file', 'fname', 'filename', 'path', 'name', 'dst', 'fid'):
            if n in kw:
                return kw[n]
    return None


def roots(t, ip, st, depth=0):
    """Where a path starts: ('dir', name) below an output directory, ('caller',) given by the caller, ('other', text)."""
    if depth > 30:
        return {('unknown', 'deep')}
    op = t.op
    if op == 'phi':
        return roots(t.a[1], ip, st, depth + 1) | roots(t.a[2], ip, st, depth + 1)
    if op == 'attr':
        if len(t.a) > 1 and t.a[0].op == 'attr' and t.a[0].a[1] == 'path':
            return {('dir', t.a[1])}
        base = t
        while base.op == 'attr':
            base = base.a[0]
        return {('caller',)} if base.op == 'param' and base.a[1] not in ('mp',) else {('other', 'attribute ' + str(t.a[1]))}
    if op == 'param':
        return {('caller',)}
    if op == 'const':
        return {('other', repr(t.py)[:60])}
    if op == 'call' and isinstance(t.a[0], str):
        fn, av = t.a[0], t.a[1]
        if fn in ('os.path.join', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.path.expanduser', 'str', 'os.fspath', 'pathlib.Path',
                  'pathlib.PurePath', 'os.path.dirname') and av:
            return roots(av[0], ip, st, depth + 1)
        return {('unknown', fn)}
    if op == 'call' and t.a[0].op == 'ext':
        from ..terms import mk
        return roots(mk('call', t.a[0].a[0], t.a[1], t.a[2]), ip, st, depth + 1) if t.a[1] else {('unknown', t.a[0].a[0])}
    if op == 'bin' and t.a[0] in ('Add', 'Div'):
        return roots(t.a[1], ip, st, depth + 1)
    if op == 'fmt' or op == 'bin' and t.a[0] == 'Mod':
        f, v = t.a[-2], t.a[-1]
        if f.op == 'const' and isinstance(f.py, str):
            if f.py.startswith('%'):
                return roots(v.a[0] if v.op in ('tuple', 'list') and v.a else v, ip, st, depth + 1)
            return {('other', repr(f.py)[:60])}
        return {('unknown', 'format')}
    if op in ('fstr', 'join', 'fstring', 'str') and t.a:
        x = t.a[0]
        x = x[0] if isinstance(x, tuple) and x else x
        return roots(x, ip, st, depth + 1) if hasattr(x, 'op') else {('unknown', op)}
    if op == 'meth' and t.a[0] in ('joinpath', 'with_suffix', 'with_name', 'resolve', 'absolute', 'expanduser', 'format', 'replace', 'strip', 'rstrip'):
        if t.a[0] == 'format' and t.a[1].op == 'const':
            return roots(t.a[2][0], ip, st, depth + 1) if str(t.a[1].py).startswith('{') and t.a[2] else {('other', repr(t.a[1].py)[:60])}
        return roots(t.a[1], ip, st, depth + 1)
    if op == 'call' and t.a[0].op == 'param':
        return {('unknown', 'callable')}
    if op == 'idx':
        return roots(t.a[0], ip, st, depth + 1)
    if op == 'ext':
        return {('other', str(t.a[0])[:60])}
    return {('unknown', op)}


def managed(f):
    """Nodes of calls whose result is released on every path."""
    ok = set()
    closed = set()                      # names closed in some finally clause
    for n in own_top(f.node):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                ok |= {id(x) for x in ast.walk(i.context_expr) if isinstance(x, ast.Call)}
                closed |= {x.id for x in ast.walk(i.context_expr) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('enter_context', 'callback'):
            ok |= {id(x) for a in n.args for x in ast.walk(a) if isinstance(x, ast.Call)}
        elif isinstance(n, ast.Try):
            for s in n.finalbody:
                for x in own(s):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CLOSERS and isinstance(x.func.value, ast.Name):
                        closed.add(x.func.value.id)
    bodies = [b for n in own_top(f.node) for b in (getattr(n, 'body', None), getattr(n, 'orelse', None), getattr(n, 'finalbody', None)) if isinstance(b, list)]
    bodies.append(f.node.body)
    for b in bodies:
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                nm = {t.id for t in ts if isinstance(t, ast.Name)}
                if nm & closed and protected_from(b[i + 1:], nm & closed, b, f.node):
                    ok |= {id(x) for x in ast.walk(s.value) if isinstance(x, ast.Call)}
    return ok


def protected_from(rest, names, body, fn):
    """The statement after the opening one is the try or with that releases it (plain assignments of constants may come between)."""
    for s in rest:
        if isinstance(s, ast.Try) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CLOSERS and isinstance(x.func.value, ast.Name)
                                          and x.func.value.id in names for t in s.finalbody for x in own(t)):
            return True
        if isinstance(s, ast.With) and any(isinstance(x, ast.Name) and x.id in names for i in s.items for x in ast.walk(i.context_expr)):
            return True
        if any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute, ast.Return, ast.Raise)) for x in own(s)):
            return False
    # opened as the last step of a try whose own finally closes it
    for n in own_top(fn):
        if isinstance(n, ast.Try) and n.body is body:
            return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CLOSERS and isinstance(x.func.value, ast.Name)
                       and x.func.value.id in names for t in n.finalbody for x in own(t))
    return False


def handed_out(f, node):
    """The opened thing is what the function returns."""
    return any(isinstance(n, ast.Return) and n.value is node for n in own_top(f.node))


def decide(funcs, S, emit, count, cache, returned_ok=lambda f: False):
    factories = set()
    for f in funcs:
        s = S.get(f)
        if s is None or s.error:
            continue
        for c in s.interp.calls:
            if c.func is f and c.qual in OPENERS and handed_out(f, c.node):
                factories.add(f.qual)
    for f in funcs:
        s = S.get(f)
        if s is None or s.error:
            emit.undecided(f)
            continue
        ip = s.interp
        ok = managed(f)
        bad, seen = 0, set()
        for c in ip.calls:
            q = c.qual
            if not q:
                continue
            if c.func is f and (q in OPENERS or q in factories) and id(c.node) not in seen:
                seen.add(id(c.node))
                count('openings')
                if id(c.node) not in ok and not (handed_out(f, c.node) and returned_ok(f)):
                    bad += 1
                    emit(R1, '%s opens %s' % (f.qual, q), f, c.node, '%s does not release what %s opened when a step after it fails' % (f.qual, q))
            p = writes(c)
            if p is None:
                continue
            if c.func is not f and not returned_ok(c.func):
                continue
            count('writers')
            t = ip.val(p, s.result.state) if s.result is not None and s.result.state is not None else p
            for r in sorted(roots(t, ip, None), key=str):
                if r[0] == 'unknown':
                    emit.undecided(f, str(r))
                elif r[0] == 'dir' and r[1] in DIRECTORIES:
                    want = OPTION.get(r[1])
                    if want and not asked(c, want):
                        bad += 1
                        emit(R3, '%s writes %s' % (f.qual, r[1]), f, c.node, '%s writes to mp.path.%s although mp.%s may be off' % (f.qual, r[1], want))
                elif r == ('caller',):
                    pass
                elif f.qual in cache and any(x.op == 'const' and x.py == '__file__' or x.op == 'ext' and '__file__' in str(x.a[0]) or 'material' in str(getattr(x, 'py', '')) for x in walk(t)):
                    count('cache_files')
                else:
                    bad += 1
                    emit(R2, '%s writes %s' % (f.qual, r[1]), f, c.node, '%s writes outside the output directories and paths it was given (%s)' % (f.qual, r[1]))
        emit.done(f, bad)


def asked(c, option):
    for x, pol in c.pc or ():
        if x.op == 'attr' and x.a[1] == option and pol:
            return True
        if x.op == 'not' and x.a[0].op == 'attr' and x.a[0].a[1] == option and not pol:
            return True
        if x.op == 'and' and pol and any(y.op == 'attr' and y.a[1] == option for y in x.a):
            return True
        if x.op == 'cmp' and x.a[0] in ('Eq', 'Is') and any(y.op == 'attr' and y.a[1] == option for y in x.a[1:]) and any(
                y.op == 'const' and y.py is pol for y in x.a[1:]):
            return True
    return False


class Emit:
    def __init__(self, rep):
        self.rep = rep

    def __call__(self, rule, construct, f, node, msg):
        self.rep.bad(rule, construct, '%s:%d' % (f.mod.rel, getattr(node, 'lineno', 0)), msg)

    def undecided(self, f, why='not analysed'):
        self.rep.undecided_at(R2, f.qual, why)

    def done(self, f, bad):
        if not bad:
            for r in (R1, R2, R3):
                self.rep.ok(r, f.qual)


class Found(set):
    def __call__(self, rule, construct, f, node, msg):
        self.add(f.name)

    def undecided(self, f, why=''):
        pass

    def done(self, f, bad):
        pass


def run(ctx, rep):
    rep.rule(R1, 'every file, worker pool or other handle that is opened is a with-item, or closed in the finally clause that starts right after it')
    rep.rule(R2, 'the path of every write starts at an output directory of the configuration (mp.path.brief, ws or jac) or at an argument, the lookup-table cache aside')
    rep.rule(R3, 'the workspace directory is written only under mp.flagSaveWS')
    funcs = ctx.judged() + [f for f in ctx.repo.analysed() if ctx.is_new(f.qual)]
    decide(funcs, ctx.S, Emit(rep), rep.count, CACHE, lambda f: ctx.is_new(f.qual))
    rep.count('functions', len(funcs))
    rep.floor('functions', 200)
    rep.floor('openings', 8)
    rep.floor('writers', 4)
    found = Found()
    r, S = selftest.posrepo()
    decide(selftest.posfuncs('c19'), S, found, lambda *a: None, {})
    selftest.exact(rep, 'C19', 'c19', found)

"""C08: results depend only on the inputs; no hidden process-wide state or randomness."""
import ast

from .. import selftest
from ..terms import walk, show, children

R_STATE = 'no-module-state'
R_DEFAULT = 'no-default-state'
R_CONFIG = 'no-process-configuration'
R_SOURCE = 'no-ambient-source'
R_TIME = 'clock-only-reported'
R_RANDOM = 'noise-only-on-request'
R_ORDER = 'no-hash-order'

# external calls that change a third-party library, the interpreter or the operating system for the rest of the process
CONFIG = {
    'numpy.seterr', 'numpy.seterrcall', 'numpy.setbufsize', 'numpy.set_printoptions', 'numpy.set_string_function',
    'numpy.random.seed', 'numpy.random.set_state', 'random.seed', 'random.setstate', 'warnings.filterwarnings',
    'warnings.simplefilter', 'warnings.resetwarnings', 'matplotlib.use', 'matplotlib.rc', 'matplotlib.rcdefaults',
    'matplotlib.pyplot.rc', 'matplotlib.pyplot.rcdefaults', 'matplotlib.pyplot.switch_backend', 'matplotlib.pyplot.ion',
    'matplotlib.pyplot.ioff', 'matplotlib.style.use', 'matplotlib.pyplot.style.use', 'matplotlib.rcParams.update',
    'matplotlib.pyplot.rcParams.update', 'os.chdir', 'os.putenv', 'os.unsetenv', 'os.umask', 'os.environ.update',
    'os.environ.setdefault', 'os.environ.pop', 'os.environ.clear', 'locale.setlocale', 'sys.setrecursionlimit',
    'sys.path.append', 'sys.path.insert', 'sys.settrace', 'sys.setprofile', 'sys.setswitchinterval', 'gc.disable', 'gc.enable',
    'multiprocessing.set_start_method', 'logging.basicConfig', 'logging.disable', 'socket.setdefaulttimeout',
    'yaml.add_constructor', 'yaml.add_implicit_resolver', 'yaml.add_path_resolver', 'yaml.add_representer',
    'yaml.add_multi_constructor', 'yaml.SafeLoader.add_constructor', 'yaml.FullLoader.add_constructor',
    'yaml.Loader.add_constructor', 'yaml.SafeLoader.add_implicit_resolver', 'yaml.UnsafeLoader.add_constructor',
    'scipy.fft.set_workers', 'scipy.fft.set_global_backend', 'scipy.fft.set_backend', 'scipy.special.seterr', 'decimal.setcontext',
    'faulthandler.enable', 'signal.signal', 'atexit.register', 'builtins.setattr', 'scipy.special.errstate',
}
CONFIG_PREFIX = ('locale.set', 'pyfftw.interfaces.cache.', 'mkl.set_', 'threadpoolctl.')
# as context managers these undo themselves
SELF_UNDOING = {'scipy.fft.set_workers', 'scipy.fft.set_backend', 'scipy.special.errstate'}
SOURCES = {'os.urandom', 'os.getpid', 'os.getppid', 'os.times', 'os.getloadavg', 'os.getlogin', 'os.getcwd', 'uuid.uuid1', 'uuid.uuid4', 'id',
           'hash', 'os.environ.get', 'os.getenv', 'os.environ', 'platform.node', 'socket.gethostname', 'getpass.getuser',
           'threading.get_ident', 'threading.current_thread', 'tempfile.mktemp', 'object', 'gc.get_objects', 'sys.getrefcount',
           'os.environ.items', 'os.environ.keys', 'sys.getsizeof', 'sys.argv', 'input', 'psutil.virtual_memory', 'psutil.cpu_percent'}
SOURCES.discard('object')
SOURCE_PREFIX = ('secrets.',)
UNORDERED = {'os.listdir', 'os.scandir', 'glob.glob', 'glob.iglob', 'os.walk', 'concurrent.futures.as_completed', 'multiprocessing.pool.imap_unordered'}
# a worker count changes how work is spread, not what is computed
SOURCE_OK = {('psutil.cpu_count', 'falco.setup.set_optional_variables')}
TIME = ('time.', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today', 'datetime.now',
        'datetime.today')
TIME_NOT = {'time.sleep'}
RANDOM_PREFIX = ('numpy.random.', 'random.', 'scipy.stats.')
RANDOM_NOT = {'numpy.random.seed', 'numpy.random.set_state', 'random.seed', 'random.setstate', 'numpy.random.RandomState.seed'}
SEEDED = {'numpy.random.default_rng', 'numpy.random.RandomState', 'random.Random', 'numpy.random.SeedSequence', 'numpy.random.Generator',
          'numpy.random.PCG64', 'numpy.random.MT19937'}
# functions whose purpose is to draw, confirmed by reading
DRAWS = {
    'falco.util.gen_simple_psd_errormap': 'a random error map is what it returns; called by nobody in the package',
    'falco.imaging.add_noise_to_subband_image': 'detector noise; each call is checked to be under mp.flagImageNoise',
}
NOISE_FLAG = 'flagImageNoise'
CACHES = {'lru_cache', 'cache', 'cached_property', 'memoize', 'singledispatch'}
# where a clock reading may be stored
TIME_STORES = {('out', 'serialDate'), ('self', 'tstart')}
REPORTERS = {'print', '.format', 'str', 'repr', 'format', 'logging.info', 'logging.debug', 'time.strftime', 'time.localtime', 'time.ctime', '.strftime',
             'time.gmtime', 'round', 'float', 'int', '.isoformat', 'datetime.timedelta'}
PARTS = {'datetime.datetime.strptime'}


def is_draw(q):
    return q.startswith(RANDOM_PREFIX) and q not in RANDOM_NOT and not q.startswith('scipy.stats.') or \
        (q.startswith('scipy.stats.') and q.endswith('.rvs'))


def run_on(funcs, S, repo, emit, ok, known):
    """emit(rule, construct, where, msg, func)."""
    by_qual = {f.qual: f for f in funcs}
    logs = {}
    callers = {}
    for f in funcs:
        s = S.get(f)
        if s is None or s.error:
            continue
        logs[f.qual] = s.interp
        for c in s.interp.calls:
            if c.qual in by_qual:
                callers.setdefault(c.qual, []).append((f, c))
    cfg_writers = config_writers(repo)
    for f in funcs:
        if f.qual not in logs:
            continue
        ip = logs[f.qual]
        n0 = emit.n
        # --- module and function state
        for e in ip.effects:
            op = e.root.op
            name = None
            if e.how and e.how.startswith('via '):
                if known(e.how[4:]) or e.how[4:] in by_qual:
                    continue            # reported at its own function
            if e.kind == 'global' or op in ('glob', 'ext', 'func', 'class'):
                name = show(e.root) + (e.path or '')
                rule = R_STATE
                if name.split('.')[0] not in ('falco', 'posex') or e.how == 'extitem':
                    rule = R_CONFIG
                emit(rule, '%s writes %s' % (f.qual, name), e.where(),
                     '%s keeps state outside its arguments: it writes %s' % (f.qual, name), f)
            elif op == 'param' and e.root.a[0] == f.qual and e.root.a[1] in f.defaults and mutable_default(f.defaults[e.root.a[1]]) \
                    and not e.path.lstrip('.'):
                emit(R_DEFAULT, '%s default %s' % (f.qual, e.root.a[1]), e.where(),
                     '%s writes to its default value of `%s`, which every later call shares' % (f.qual, e.root.a[1]), f)
            elif op == 'param' and e.root.a[1] == 'self' and f.cls is not None:
                a = e.path.lstrip('.').split('.')[0].split('[')[0]
                if e.kind == 'inplace' and class_level(f.cls, a):
                    emit(R_STATE, '%s class attribute %s' % (f.qual, a), e.where(),
                         '%s writes to the class attribute %s, which all instances share' % (f.qual, a), f)
        s = S.get(f)
        rets = [t for x in s.result.exits for t in [x.value] + [c for c, _ in x.state.pc] if t is not None] if s.result is not None else []
        for p, path in s.ret_alias or ():
            if p in f.defaults and not path and mutable_default(f.defaults[p]) and not empty_array(f.defaults[p]):
                emit(R_DEFAULT, '%s hands out default %s' % (f.qual, p), f.where,
                     '%s returns its mutable default value of `%s`, which every later call shares' % (f.qual, p), f)
        for d in getattr(f.node, 'decorator_list', []):
            dn = d.func if isinstance(d, ast.Call) else d
            nm = dn.attr if isinstance(dn, ast.Attribute) else getattr(dn, 'id', '')
            if nm in CACHES - {'singledispatch'}:
                emit(R_STATE, '%s decorated %s' % (f.qual, nm), f.where,
                     '%s keeps its results between calls (%s); callers share and can alter them' % (f.qual, nm), f)
        # --- calls
        for c in ip.calls:
            q = c.qual
            if not q:
                continue
            where = '%s:%d' % (c.func.mod.rel, getattr(c.node, 'lineno', 0))
            if c.stack and c.func is not f and known(c.func.qual):
                continue
            if q in cfg_writers and not restoring(c.func) and not protected(c.func, by_qual, callers, repo):
                emit(R_CONFIG, '%s calls %s' % (c.func.qual, q.split('.')[-1]), where,
                     '%s changes %s for the rest of the process' % (c.func.qual, '/'.join(sorted(cfg_writers[q]))), f)
            elif (q in CONFIG or q.startswith(CONFIG_PREFIX)) and not in_with(c, q):
                if not inside_restoring_with(c):
                    emit(R_CONFIG, '%s calls %s' % (c.func.qual, q), where,
                         '%s reconfigures the process: %s' % (c.func.qual, q), f)
            elif q in SOURCES or q.startswith(SOURCE_PREFIX):
                if (q, f.qual) in SOURCE_OK or only_reported(c, ip, f, rets):
                    continue
                emit(R_SOURCE, '%s calls %s' % (c.func.qual, q), where, '%s depends on %s, which is not an input' % (c.func.qual, q), f)
            elif q in UNORDERED and not sorted_use(c, ip):
                emit(R_ORDER, '%s calls %s' % (c.func.qual, q), where, '%s depends on the arbitrary order of %s' % (c.func.qual, q), f)
            elif q.startswith(TIME) and q not in TIME_NOT:
                if not only_reported(c, ip, f, rets):
                    emit(R_TIME, '%s uses %s' % (c.func.qual, q), where, 'the result of %s depends on the clock (%s)' % (c.func.qual, q), f)
            elif is_draw(q):
                if q in SEEDED and (c.args or c.kw) and not none_arg(c):
                    continue
                if not may_draw(c.func, by_qual, callers):
                    emit(R_RANDOM, '%s calls %s' % (c.func.qual, q), where,
                         '%s draws random numbers (%s) without an explicit request for noise' % (c.func.qual, q), f)
            if q in DRAWS and not noise_requested(c, by_qual, callers) and not may_draw(c.func, by_qual, callers):
                emit(R_RANDOM, '%s calls %s' % (c.func.qual, q.split('.')[-1]), where,
                     '%s adds noise although mp.%s may be off' % (c.func.qual, NOISE_FLAG), f)
        # reads of the environment as a mapping
        for nd in ast.walk(f.node):
            if isinstance(nd, ast.Subscript) and isinstance(nd.ctx, ast.Load) and ast.unparse(nd.value) in ('os.environ', 'sys.argv'):
                emit(R_SOURCE, '%s reads %s' % (f.qual, ast.unparse(nd.value)), '%s:%d' % (f.mod.rel, nd.lineno),
                     '%s depends on %s' % (f.qual, ast.unparse(nd.value)), f)
        for what, nd in set_order_uses(f.node):
            emit(R_ORDER, '%s iterates a set' % f.qual, '%s:%d' % (f.mod.rel, nd.lineno),
                 '%s takes the elements of a set in hash order (%s)' % (f.qual, what), f)
        if emit.n == n0:
            ok(f)


def mutable_default(node):
    if isinstance(node, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp)):
        return True
    return isinstance(node, ast.Call) and ast.unparse(node.func) not in ('tuple', 'frozenset', 'int', 'float', 'complex', 'str', 'object', 'range')


def empty_array(node):
    return isinstance(node, ast.Call) and len(node.args) == 1 and isinstance(node.args[0], (ast.List, ast.Tuple)) and not node.args[0].elts


def class_level(cls, attr):
    for st in cls.node.body:
        if isinstance(st, ast.Assign):
            if any(isinstance(t, ast.Name) and t.id == attr for t in st.targets):
                return not isinstance(st.value, ast.Constant)
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == attr and st.value is not None:
            # dataclass fields are per instance (field(default_factory=...))
            return not isinstance(st.value, ast.Constant) and not (isinstance(st.value, ast.Call) and 'field' in ast.unparse(st.value.func))
    return False


def config_writers(repo):
    """Functions of the vendored PROPER package that set a switch of that package: name -> switches."""
    out = {}
    session = {'prop_begin', 'prop_lens', 'prop_propagate', 'prop_define_entrance', 'prop_state', 'prop_run'}   # per-wavefront bookkeeping
    for q, f in repo.funcs.items():
        if not q.startswith('falco.proper') or f.name in session:
            continue
        w = set()
        for nd in ast.walk(f.node):
            for t in (nd.targets if isinstance(nd, ast.Assign) else [nd.target] if isinstance(nd, ast.AugAssign) else []):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'proper':
                    w.add('proper.' + t.attr)
        if w:
            out[q] = w
    return out


def restoring(func):
    """Inside `func` a finally clause gives a PROPER switch back the value that was read from it before."""
    saved = set()
    for nd in ast.walk(func.node):
        if isinstance(nd, ast.Assign) and isinstance(nd.value, ast.Attribute) and ast.unparse(nd.value).startswith(('proper.', 'falco.proper.')):
            saved |= {t.id for t in nd.targets if isinstance(t, ast.Name)}
    for nd in ast.walk(func.node):
        if isinstance(nd, ast.Try):
            for st in nd.finalbody:
                for x in ast.walk(st):
                    if isinstance(x, ast.Name) and x.id in saved:
                        return True
    return False


def protected(func, by_qual, callers, repo, depth=0):
    if restoring(func):
        return True
    mods = func.mod.name if hasattr(func.mod, 'name') else func.qual.rsplit('.', 1)[0]
    for d in getattr(func.node, 'decorator_list', []):
        dn = d.func if isinstance(d, ast.Call) else d
        nm = dn.attr if isinstance(dn, ast.Attribute) else getattr(dn, 'id', '')
        for q, g in repo.funcs.items():
            if q.split('.')[-1] == nm and restoring(g):
                return True
    for nd in ast.walk(func.node):
        if isinstance(nd, ast.With):
            for it in nd.items:
                if isinstance(it.context_expr, ast.Call):
                    fn = it.context_expr.func
                    nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')
                    for q, g in repo.funcs.items():
                        if q.split('.')[-1] == nm and restoring(g):
                            return True
    cs = callers.get(func.qual, [])
    return depth < 5 and func.name.startswith('_') and bool(cs) and all(protected(g, by_qual, callers, repo, depth + 1) for g, _ in cs)


def in_with(c, q):
    if q not in SELF_UNDOING:
        return False
    for nd in ast.walk(c.func.node):
        if isinstance(nd, (ast.With, ast.AsyncWith)) and any(it.context_expr is c.node for it in nd.items):
            return True
    return False


UNDOING_WITH = ('catch_warnings', 'errstate', 'printoptions', 'rc_context', 'style.context', 'localcontext')


def inside_restoring_with(c):
    for nd in ast.walk(c.func.node):
        if isinstance(nd, (ast.With, ast.AsyncWith)) and any(x is c.node for st in nd.body for x in ast.walk(st)):
            for it in nd.items:
                if any(u in ast.unparse(it.context_expr) for u in UNDOING_WITH):
                    return True
    return False


def none_arg(c):
    a = (c.args[0] if c.args else c.kw[0][1])
    return a.op == 'const' and a.a[0] is None


def tainted(t, src):
    return any(x is src or x == src for x in walk(t))


def only_reported(c, ip, f, rets=()):
    """The value of call `c` reaches nothing but printed text and the documented time-stamp attributes."""
    src = c.result
    if src is None:
        return False
    for e in ip.effects:
        if e.pc and any(tainted(p[0], src) for p in e.pc):
            return False
        v = getattr(e, 'value', None)
        if v is not None and hasattr(v, 'op') and tainted(v, src):
            r = e.root.a[1] if e.root.op == 'param' else None
            attr = e.path.lstrip('.').split('[')[0].split('.')[-1] or e.attr
            if (r, attr) not in TIME_STORES:
                return False
    for k in ip.calls:
        if k is c:
            continue
        args = list(k.args) + [x for _, x in k.kw] + ([k.recv] if getattr(k, 'recv', None) is not None and hasattr(k.recv, 'op') else [])
        if any(hasattr(a, 'op') and tainted(a, src) for a in args):
            q = k.qual or ''
            if not (q in REPORTERS or q in ('len',)):
                return False
        if k.qual != 'print' and k.pc and any(tainted(p[0], src) for p in k.pc):
            return False
    return not any(x is not None and tainted(x, src) for x in rets)


def may_draw(func, by_qual, callers, depth=0):
    if func.qual in DRAWS:
        return True
    cs = callers.get(func.qual, [])
    return depth < 5 and bool(cs) and all(may_draw(g, by_qual, callers, depth + 1) or flag_on(c) for g, c in cs)


def flag_on(c):
    for p, pol in c.pc:
        todo = [p]
        while pol and todo:
            t = todo.pop()
            if t.op == 'and':
                todo += children(t)
            elif t.op == 'attr' and t.a[1] == NOISE_FLAG:
                return True
            elif t.op in ('call', 'cmp') and any(x.op == 'attr' and x.a[1] == NOISE_FLAG for x in walk(t)):
                return True
    return False


def noise_requested(c, by_qual, callers, depth=0):
    if c.qual != 'falco.imaging.add_noise_to_subband_image':
        return False
    if flag_on(c):
        return True
    cs = callers.get(c.func.qual, [])
    return depth < 4 and bool(cs) and all(noise_requested_at(k, g, by_qual, callers, depth + 1) for g, k in cs)


def noise_requested_at(k, g, by_qual, callers, depth):
    if flag_on(k):
        return True
    cs = callers.get(g.qual, [])
    return depth < 4 and bool(cs) and all(noise_requested_at(k2, g2, by_qual, callers, depth + 1) for g2, k2 in cs)


def sorted_use(c, ip):
    src = c.result
    for k in ip.calls:
        if k.qual in ('sorted', 'len', 'set', 'frozenset', 'any', 'all', 'numpy.sort', '.sort', 'min', 'max', 'sum') and k.args and tainted(k.args[0], src):
            return True
    return False


INSENSITIVE = {'sorted', 'len', 'set', 'frozenset', 'any', 'all', 'min', 'max', 'sum', 'isinstance', 'bool', 'print'}


def is_set_expr(nd, names):
    if isinstance(nd, (ast.Set, ast.SetComp)):
        # numbers hash to themselves: only sets that can hold strings or objects have an arbitrary order
        if isinstance(nd, ast.Set) and all(isinstance(e, ast.Constant) and isinstance(e.value, (int, bool)) or
                                           isinstance(e, ast.UnaryOp) for e in nd.elts):
            return False
        return True
    if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id in ('set', 'frozenset'):
        return True
    if isinstance(nd, ast.BinOp) and isinstance(nd.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
        return is_set_expr(nd.left, names) or is_set_expr(nd.right, names)
    return isinstance(nd, ast.Name) and nd.id in names


def set_order_uses(fnode):
    assigned, names = {}, set()
    for nd in ast.walk(fnode):
        if isinstance(nd, ast.Assign) and len(nd.targets) == 1 and isinstance(nd.targets[0], ast.Name):
            assigned.setdefault(nd.targets[0].id, []).append(nd.value)
    names = {n for n, vs in assigned.items() if all(is_set_expr(v, ()) for v in vs)}
    out = []
    insens = set()
    for nd in ast.walk(fnode):
        if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id in INSENSITIVE:
            for a in nd.args:
                if isinstance(a, (ast.GeneratorExp, ast.ListComp)):
                    insens |= {id(g) for g in a.generators}
        if isinstance(nd, ast.SetComp):
            insens |= {id(g) for g in nd.generators}
    for nd in ast.walk(fnode):
        if isinstance(nd, ast.For) and is_set_expr(nd.iter, names) and not order_free_body(nd):
            out.append(('for loop', nd))
        elif isinstance(nd, ast.comprehension) and is_set_expr(nd.iter, names) and id(nd) not in insens:
            out.append(('comprehension', nd.iter))
        elif isinstance(nd, ast.Call) and nd.args and is_set_expr(nd.args[0], names):
            fn = nd.func
            nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
            if nm in ('list', 'tuple', 'enumerate', 'iter', 'array', 'asarray', 'fromiter', 'join', 'next', 'zip', 'map'):
                out.append((nm, nd))
    return out


def order_free_body(loop):
    """A loop that only checks its elements (raises, asserts, set insertion) has the same outcome in any order."""
    for st in loop.body:
        for nd in ast.walk(st):
            if isinstance(nd, (ast.Assign, ast.AugAssign, ast.Return, ast.Yield, ast.Break, ast.Delete)):
                return False
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in ('append', 'extend', 'insert'):
                return False
    return True


def run(ctx, rep):
    rep.rule(R_STATE, 'no function writes a module variable, function attribute, class-level container or result cache')
    rep.rule(R_DEFAULT, 'no function writes to, or returns, a mutable default argument')
    rep.rule(R_CONFIG, 'no call reconfigures numpy, matplotlib, yaml, warnings, PROPER, the environment or the random seed, unless undone on every exit')
    rep.rule(R_SOURCE, 'no result depends on environment variables, process identity, object identity or string hashes')
    rep.rule(R_TIME, 'clock readings reach only printed text and out.serialDate')
    rep.rule(R_RANDOM, 'random draws occur only in the functions made for it, detector noise only under mp.flagImageNoise; generators created elsewhere are seeded')
    rep.rule(R_ORDER, 'no order-sensitive use of sets, directory listings or completion order')
    funcs = ctx.repo.analysed()
    funcs = [f for f in funcs if not f.qual.startswith(('falco.mkl_fft', 'falco.dftidefs'))]

    class Emit:
        n = 0

        def __call__(self, rule, construct, where, msg, func):
            self.n += 1
            rep.bad(rule, construct, where, msg)
    emit = Emit()
    run_on(funcs, ctx.S, ctx.repo, emit, lambda f: rep.ok(R_STATE, f.qual), ctx.known)
    rep.count('functions', len(funcs))
    rep.floor('functions', 200)
    n_calls = sum(len(ctx.S.get(f).interp.calls) for f in funcs if ctx.S.get(f) and not ctx.S.get(f).error)
    rep.count('calls_examined', n_calls)
    rep.floor('calls_examined', 2000)
    # module top level: executed once at import
    for m in ctx.repo.mods.values():
        if m.name.startswith('falco.proper') or m.name in ('falco.mkl_fft', 'falco.dftidefs'):
            continue
        for st in ast.walk(m.tree):
            if isinstance(st, ast.Call):
                q = ast.unparse(st.func)
                for short, full in (('np.', 'numpy.'), ('plt.', 'matplotlib.pyplot.')):
                    if q.startswith(short):
                        q = full + q[len(short):]
                if q in CONFIG and top_level(m.tree, st):
                    rep.bad(R_CONFIG, '%s at import calls %s' % (m.name, q), '%s:%d' % (m.rel, st.lineno),
                            'importing %s reconfigures the process: %s' % (m.name, q))
        rep.ok(R_CONFIG, m.name)
    # positive examples
    repo, S = selftest.posrepo()
    found = set()

    class PEmit:
        n = 0

        def __call__(self, rule, construct, where, msg, func):
            self.n += 1
            found.add(func.name)
    run_on(selftest.posfuncs('c08'), S, repo, PEmit(), lambda f: None, lambda q: False)
    selftest.expect(rep, 'C08', found, {f.name for f in selftest.posfuncs('c08')})
    rep.assumptions += ['calls are resolved through imports and module attributes; calls through arbitrary objects are not followed into third-party code',
                        'the tables of process-configuring and ambient-source calls list what numpy, scipy, matplotlib, yaml, PROPER and the standard library offer']


def top_level(tree, node):
    for st in tree.body:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(st, ast.If) and '__main__' in ast.unparse(st.test):
            continue
        if any(x is node for x in ast.walk(st)):
            return True
    return False

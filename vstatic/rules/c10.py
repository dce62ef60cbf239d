"""C10: the argument-checking helpers accept and reject exactly what they advertise.

The branch conditions of each helper (dataflow facts, no execution) are evaluated in a finite abstract domain: kinds of Python values that differ in type, sign,
realness, number of dimensions, squareness or element type.  Every kind must end in the outcome that the helper's name and documentation promise."""
import ast

from .. import selftest
from ..interp import Budget, Interp

R1 = 'accepts-its-kind'
R2 = 'rejects-every-other-kind'
R3 = 'returns-what-was-checked'
R4 = 'checks-its-own-arguments'
ERR = 'ERR'
PRE = 'falco.check.'


class Kind:
    """An abstract value."""
    def __init__(self, name, types, real=None, sign=None, shape=None, dtype=None, text=None):
        self.name, self.types, self.real, self.sign, self.shape, self.dtype, self.text = name, set(types), real, sign, shape, dtype, text


class Arr:
    def __init__(self, shape, dtype):
        self.shape, self.dtype = shape, dtype


class Dim(str):
    """A symbolic extent: equal to itself only."""


NUM = ['numbers.Number', 'numbers.Complex']
REAL = NUM + ['numbers.Real']
INT = REAL + ['numbers.Rational', 'numbers.Integral']
N, M_ = Dim('n'), Dim('m')
KINDS = {}


def kind(name, *a, **k):
    KINDS[name] = Kind(name, *a, **k)


for sg in ('positive', 'zero', 'negative'):
    kind(sg + ' int', INT + ['int'], True, sg, (), 'i')
    kind(sg + ' numpy integer', INT + ['numpy.integer', 'numpy.signedinteger', 'numpy.number', 'numpy.generic'], True, sg, (), 'i')
    kind(sg + ' float', REAL + ['float'], True, sg, (), 'f')
    kind(sg + ' numpy float', REAL + ['numpy.floating', 'numpy.number', 'numpy.generic'], True, sg, (), 'f')
kind('complex', NUM + ['complex'], False, None, (), 'c')
kind('numpy complex', NUM + ['numpy.complexfloating', 'numpy.number', 'numpy.generic'], False, None, (), 'c')
kind('bool', INT + ['int', 'bool'], True, 'positive', (), 'b')
kind('str', ['str'], True, None, (), 'U', 'other')
kind("'pixel'", ['str'], True, None, (), 'U', 'pixel')
kind("'interpixel'", ['str'], True, None, (), 'U', 'interpixel')
kind('bytes', ['bytes'], True, None, (), 'S', b'other')
kind('None', ['NoneType'], True, None, (), 'O')
kind('dict', ['dict'], True, None, (), 'O')
kind('function', ['function'], True, None, (), 'O')
for dt, nm, re_ in (('f', 'real', True), ('i', 'integer', True), ('b', 'boolean', True), ('c', 'complex', False)):
    kind('0-D %s array' % nm, ['numpy.ndarray'], re_, None, (), dt)
    for sh, sn in (((N,), '1-D'), ((N, N), 'square 2-D'), ((N, M_), 'non-square 2-D'), ((N, M_, N), '3-D'), ((N, M_, N, N), '4-D')):
        kind('%s %s array' % (sn, nm), ['numpy.ndarray'], re_, None, sh, dt)
        if len(sh) < 3 and dt in 'fc':
            kind('%s nested list, %s' % (sn, nm), ['list'], True, None, sh, dt)
            kind('%s nested tuple, %s' % (sn, nm), ['tuple'], True, None, sh, dt)
kind('1-D array of strings', ['numpy.ndarray'], True, None, (N,), 'U')
kind('1-D array of objects', ['numpy.ndarray'], True, None, (N,), 'O')


def is_num(k):
    return 'numbers.Number' in k.types


def is_real(k):
    return 'numbers.Real' in k.types


def is_int(k):
    return 'numbers.Integral' in k.types


def dims(n):
    return lambda k: k.shape is not None and len(k.shape) == n


NUMERIC = {'f', 'i', 'b', 'c', 'u'}
# helper -> (accepted, exception raised, kinds on which the documentation is silent, what is returned)
SPEC = {
    'centering': (lambda k: k.text in ('pixel', 'interpixel'), ('TypeError', 'ValueError'), lambda k: False, 'var'),
    'is_dict': (lambda k: 'dict' in k.types, ('TypeError',), lambda k: False, 'var'),
    'is_bool': (lambda k: 'bool' in k.types, ('TypeError',), lambda k: False, 'var'),
    'real_positive_scalar': (lambda k: is_real(k) and k.sign == 'positive', ('vexc',), lambda k: 'bool' in k.types, 'var'),
    'real_nonnegative_scalar': (lambda k: is_real(k) and k.sign in ('positive', 'zero'), ('vexc',), lambda k: 'bool' in k.types, 'var'),
    'real_scalar': (lambda k: is_real(k), ('vexc',), lambda k: 'bool' in k.types, 'var'),
    'positive_scalar_integer': (lambda k: is_int(k) and k.sign == 'positive', ('vexc',), lambda k: 'bool' in k.types, 'var'),
    'nonnegative_scalar_integer': (lambda k: is_int(k) and k.sign in ('positive', 'zero'), ('vexc',), lambda k: 'bool' in k.types, 'var'),
    'scalar_integer': (lambda k: is_int(k), ('vexc',), lambda k: 'bool' in k.types, 'var'),
    'real_array': (lambda k: k.shape not in (None, ()) and k.dtype in 'fiub', ('vexc',), lambda k: False, 'array'),
    'oneD_array': (lambda k: dims(1)(k) and k.dtype in NUMERIC, ('vexc',), lambda k: dims(1)(k) and k.dtype not in NUMERIC, 'array'),
    'twoD_array': (lambda k: dims(2)(k) and k.dtype in NUMERIC, ('vexc',), lambda k: dims(2)(k) and k.dtype not in NUMERIC, 'array'),
    'twoD_square_array': (lambda k: dims(2)(k) and k.shape[0] is k.shape[1] and k.dtype in NUMERIC, ('vexc',), lambda k: False, 'array'),
    'threeD_array': (lambda k: dims(3)(k) and k.dtype in NUMERIC, ('vexc',), lambda k: False, 'array'),
    'string': (lambda k: bool({'str', 'bytes'} & k.types), ('vexc',), lambda k: False, 'var'),
    'boolean': (lambda k: 'bool' in k.types, ('vexc',), lambda k: False, 'var'),
    'dictionary': (lambda k: 'dict' in k.types, ('vexc',), lambda k: False, 'var'),
}
GOOD_NAME = Kind('str', ['str'], text='name')
BAD_NAME = Kind('number as name', INT + ['int'], True, 'positive', (), 'i')


class Exc:
    """What is handed in as the exception to raise."""
    def __init__(self, name, types, supers=()):
        self.name, self.types, self.supers = name, set(types), set(supers)


GOOD_EXC = Exc('an exception class', ['type'], ['Exception', 'BaseException', 'object'])
BAD_EXCS = [Exc('a class that is no exception', ['type'], ['object']), Exc('an exception instance', ['ValueError', 'Exception']), Exc('a string as exception', ['str']),
            Exc('None as exception', ['NoneType'])]


class Unknown(Exception):
    pass


class Fails(Exception):
    """Evaluating the condition raises something by itself."""


def module_value(repo, mod, name):
    m = repo.mods.get(mod)
    if m is None:
        raise Unknown(name)
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            return names_of(m, n.value)
    raise Unknown(name)


def names_of(m, node):
    if isinstance(node, (ast.Tuple, ast.List)):
        return set().union(*[names_of(m, x) for x in node.elts])
    if isinstance(node, ast.BinOp):
        return names_of(m, node.left) | names_of(m, node.right)
    s = ast.unparse(node)
    return {s.replace('np.', 'numpy.', 1) if s.startswith('np.') else s}


class Eval:
    def __init__(self, repo, env):
        self.repo, self.env = repo, env

    def types(self, t):
        if t.op in ('ext', 'class'):
            return {t.a[0].replace('builtins.', '')}
        if t.op in ('tuple', 'list'):
            return set().union(*[self.types(x) for x in t.a])
        if t.op == 'glob':
            return module_value(self.repo, t.a[0], t.a[1])
        if t.op == 'func':
            return {t.a[0]}
        if t.op == 'param' and isinstance(self.env.get(t.a[1]), Kind):
            raise Fails('a type is asked for')
        raise Unknown(t.op)

    def __call__(self, t):
        op = t.op
        if op == 'const':
            return t.py
        if op == 'param':
            if t.a[1] in self.env:
                return self.env[t.a[1]]
            raise Unknown(t.a[1])
        if op == 'not':
            v = self.truth(t.a[0])
            return not v
        if op in ('and', 'or'):
            stop = op == 'or'
            later = None
            for x in t.a:
                try:
                    if self.truth(x) is stop:
                        return stop
                except (Fails, Unknown) as ex:
                    later = later or ex
            if later:
                raise later
            return not stop
        if op == 'phi':
            return self(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if op == 'call':
            fn = t.a[0]
            args = t.a[1]
            if fn in ('isinstance', 'issubclass') and len(args) == 2:
                ts = self.types(args[1])
                v = self(args[0])
                if not isinstance(v, (Kind, Exc)):
                    if isinstance(v, Arr):
                        return bool(ts & {'numpy.ndarray', 'object'})
                    raise Unknown(str(v))
                if fn == 'issubclass':
                    if not isinstance(v, Exc) or 'type' not in v.types:
                        raise Fails('issubclass of an instance')
                    return bool(ts & v.supers)
                return bool(ts & (v.types | {'object'}))
            if fn in ('numpy.isrealobj', 'numpy.iscomplexobj'):
                v = self(args[0])
                if isinstance(v, Kind):
                    r = v.dtype != 'c'
                elif isinstance(v, Arr):
                    r = v.dtype != 'c'
                else:
                    raise Unknown(fn)
                return r if fn == 'numpy.isrealobj' else not r
            if fn in ('numpy.asarray', 'numpy.array', 'numpy.asanyarray') and len(args) == 1:
                return self.array(self(args[0]))
            if fn in ('numpy.ndim',):
                return len(self.array(self(args[0])).shape)
            if fn in ('numpy.shape',):
                return self.array(self(args[0])).shape
            if fn == 'numpy.isscalar':
                v = self(args[0])
                if isinstance(v, Kind):
                    return is_num(v) or bool({'str', 'bytes', 'numpy.generic'} & v.types)
            if fn == 'callable':
                v = self(args[0])
                return isinstance(v, Exc) and 'type' in v.types or isinstance(v, Kind) and 'function' in v.types
            if fn == 'len':
                return self.length(self(args[0]))
            if fn in ('type',) and len(args) == 1:
                return ('type', self(args[0]))
            raise Unknown(str(fn))
        if op == 'view' and isinstance(t.a[1], tuple) and len(t.a[1]) > 1 and t.a[1][0] == 'call' and t.a[1][1] in ('numpy.asarray', 'numpy.asanyarray'):
            return self.array(self(t.a[0]))
        if op == 'len':
            return self.length(self(t.a[0]))
        if op in ('aattr', 'attr'):
            b = self(t.a[0])
            if isinstance(b, tuple) and b[:1] == ('dtype',) and t.a[1] == 'kind':
                return b[1]
            if isinstance(b, Kind):
                if 'numpy.ndarray' not in b.types:
                    if not is_num(b) or 'numpy.generic' not in b.types:
                        raise Fails('attribute %s of %s' % (t.a[1], b.name))
                b = Arr(b.shape, b.dtype)
            if isinstance(b, Arr):
                if t.a[1] == 'shape':
                    return b.shape
                if t.a[1] == 'ndim':
                    return len(b.shape)
                if t.a[1] == 'dtype':
                    return ('dtype', b.dtype)
            raise Unknown(t.a[1])
        if op == 'idx':
            b, i = self(t.a[0]), self(t.a[1])
            if isinstance(b, tuple) and isinstance(i, int):
                if not -len(b) <= i < len(b):
                    raise Fails('index %d' % i)
                return b[i]
            raise Unknown('idx')
        if op in ('list', 'tuple', 'set'):
            return tuple(self(x) for x in t.a)
        if op == 'cmp':
            return self.compare(t.a[0], t.a[1], t.a[2])
        raise Unknown(op)

    def array(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, Kind) and v.shape is not None:
            return Arr(v.shape, v.dtype)
        raise Unknown('array of %s' % v)

    def length(self, v):
        if isinstance(v, Kind):
            if v.shape:
                return v.shape[0]
            if {'str', 'bytes', 'dict'} & v.types:
                raise Unknown('length')
            raise Fails('len of %s' % v.name)
        if isinstance(v, Arr):
            if not v.shape:
                raise Fails('len of a scalar array')
            return v.shape[0]
        if isinstance(v, tuple):
            return len(v)
        raise Unknown('len')

    def truth(self, t):
        v = self(t)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, Kind) and is_num(v) and v.sign:
            return v.sign != 'zero'
        raise Unknown('truth')

    def compare(self, op, x, y):
        if op in ('In', 'NotIn'):
            a = self(x)
            b = self(y)
            if isinstance(b, (tuple, str)):
                r = False
                for z in b:
                    if self.equal(a, z):
                        r = True
                return r if op == 'In' else not r
            raise Unknown('in')
        a, b = self(x), self(y)
        if op in ('Is', 'IsNot'):
            if b is None or a is None:
                o = a if b is None else b
                r = o is None or isinstance(o, Kind) and 'NoneType' in o.types
                return r if op == 'Is' else not r
            raise Unknown('is')
        if op in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            return r if op == 'Eq' else not r
        if isinstance(b, (Kind, Arr)):
            a, b, op = b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op)
        if isinstance(a, Kind) and isinstance(b, (int, float)):
            if not is_real(a):
                raise Fails('order of %s' % a.name)
            s = {'negative': -1, 'zero': 0, 'positive': 1}[a.sign]
            if b != 0:
                # half-open ranges inside a sign class are left open
                if b > 0 and s <= 0:
                    c = -1
                elif b < 0 and s >= 0:
                    c = 1
                else:
                    raise Half('order with %r' % b)
            else:
                c = s
            return {'Lt': c < 0, 'LtE': c <= 0, 'Gt': c > 0, 'GtE': c >= 0}[op]
        if isinstance(a, int) and isinstance(b, int):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        raise Unknown(op)

    def equal(self, a, b):
        if isinstance(a, Dim) or isinstance(b, Dim):
            if isinstance(a, Dim) and isinstance(b, Dim):
                return a is b
            raise Half('an extent compared with %r' % (b if isinstance(a, Dim) else a))
        if isinstance(b, Kind):
            a, b = b, a
        if isinstance(a, Kind):
            if isinstance(b, (str, bytes)):
                return a.text == b
            if a.shape and 'numpy.ndarray' in a.types:
                raise Fails('truth of an array')
            if b is None:
                return 'NoneType' in a.types
            if isinstance(b, (int, float)):
                if b == 0 and a.sign:
                    return a.sign == 'zero'
                if not is_num(a):
                    return False
                raise Half('equality with %r' % b)
            raise Unknown('==')
        if isinstance(a, (int, str, float, bytes)) and isinstance(b, (int, str, float, bytes)):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return all(self.equal(x, y) for x, y in zip(a, b))
        raise Unknown('==')


class Half(Unknown):
    """The condition splits a kind: some of its values go one way, some the other."""


def outcomes(repo, ip, res, env):
    """The ways the function can end for this kind: [('return', value term) | ('raise', exception term) | ('fails', why)], and whether a kind was split."""
    ev = Eval(repo, env)
    out, split = [], None
    leaves = [('raise', r[0], r[3]) for r in ip.raises] + [('return', x.value, x.state.pc) for x in res.exits]
    for what, v, pc in leaves:
        taken = True
        for c, want in pc or ():
            try:
                if ev.truth(c) is not want:
                    taken = False
                    break
            except Half as ex:
                split = str(ex)
            except Fails as ex:
                out.append(('fails', str(ex)))
                taken = False
                break
        if taken:
            out.append((what, v))
    return out, split


def exception_of(t):
    if t.op == 'call':
        h = t.a[0]
        if hasattr(h, 'op'):
            return h.a[1] if h.op == 'param' else h.a[0] if h.op in ('ext', 'class') else str(h.op)
        return str(h)
    if t.op in ('obj', 'snap'):
        return t.a[0]
    if t.op in ('ext', 'class'):
        return t.a[0]
    if t.op == 'param':
        return t.a[1]
    return t.op


def returned(t, f):
    """What is handed back: 'var', 'array' (of var) or something else."""
    if t.op == 'param':
        return t.a[1]
    if t.op == 'view' and t.a[0].op == 'param' and isinstance(t.a[1], tuple) and t.a[1][:1] == ('call',):
        return 'array' if t.a[0].a[1] == f.args[0] and str(t.a[1][1]).startswith('numpy.as') else '?'
    if t.op == 'call' and str(t.a[0]) in ('numpy.asarray', 'numpy.array', 'numpy.asanyarray'):
        return 'array'
    if t.op == 'phi':
        a, b = returned(t.a[1], f), returned(t.a[2], f)
        return a if a == b else '?'
    return '?'


def judge(repo, interp, f, spec, emit, ok, undecided):
    accepts, excs, silent, gives = spec
    ip = interp()
    try:
        res = ip.run(f)
    except Budget as ex:
        undecided(f, str(ex))
        return
    var = f.args[0]
    others = {a: GOOD_NAME if a == 'vname' else GOOD_EXC for a in f.args[1:]}

    def run(env):
        return outcomes(repo, ip, res, env)

    for k in KINDS.values():
        if silent(k):
            continue
        try:
            out, split = run(dict(others, **{var: k}))
        except Unknown as ex:
            undecided(f, '%s for %s' % (ex, k.name))
            continue
        want = accepts(k)
        rule = R1 if want else R2
        bad = False
        if split and len(out) > 1 and not ({w for w, _ in out} == {'return'} or all(w == 'raise' for w, _ in out)):
            emit(rule, f, k.name, f.where, '%s treats some values of the kind "%s" differently from others (%s)' % (f.qual, k.name, split))
            continue
        for what, v in out:
            if what == 'fails':
                bad = True
                emit(rule, f, k.name, f.where, '%s neither accepts nor rejects %s: %s fails by itself' % (f.qual, k.name, v))
            elif want and what == 'raise':
                bad = True
                emit(R1, f, k.name, f.where, '%s raises %s for %s, which it is meant to accept' % (f.qual, exception_of(v), k.name))
            elif not want and what == 'return':
                bad = True
                emit(R2, f, k.name, f.where, '%s accepts %s' % (f.qual, k.name))
            elif what == 'raise' and exception_of(v).split('.')[-1] not in excs:
                bad = True
                emit(R2, f, k.name, f.where, '%s rejects %s with %s instead of %s' % (f.qual, k.name, exception_of(v), ' or '.join(excs)))
            elif what == 'return':
                g = returned(v, f)
                if g not in (var, 'array') or gives == 'var' and g != var and k.shape == ():
                    emit(R3, f, 'return', f.where, '%s does not hand back what it checked for %s' % (f.qual, k.name))
                    bad = True
        if not out:
            undecided(f, 'no outcome for %s' % k.name)
        elif not bad:
            ok(rule)
    good = next((k for k in KINDS.values() if accepts(k) and not silent(k)), None)
    for a, alternatives in (('vname', [BAD_NAME]), ('vexc', BAD_EXCS)):
        if a not in f.args:
            continue
        for x in alternatives:
            try:
                out, _ = run(dict(others, **{var: good, a: x}))
            except Unknown as ex:
                undecided(f, '%s for %s' % (ex, x.name))
                continue
            if not out or any(w != 'raise' or not exception_of(v).endswith('CheckException') for w, v in out):
                emit(R4, f, x.name, f.where, '%s works with %s as %s' % (f.qual, x.name, a))
            else:
                ok(R4)


def helpers(ctx, rep):
    rep.rule(R1, 'every kind of value the helper is named for reaches a normal return')
    rep.rule(R2, 'every other kind of value reaches a raise of the exception the caller asked for (TypeError or ValueError where the caller names none)')
    rep.rule(R3, 'what is returned is the checked value, or the array made of it')
    rep.rule(R4, 'a name that is no string and an exception that is no exception class are refused with CheckException')
    rep.count('kinds_of_values', len(KINDS))

    def emit(rule, f, construct, at, msg):
        rep.bad(rule, '%s %s' % (f.qual, construct), at, msg)
    n = 0
    for name, spec in SPEC.items():
        f = ctx.repo.funcs.get(PRE + name)
        if f is None:
            rep.undecided_at(R1, PRE + name, 'the helper no longer exists under this name')
            continue
        n += 1
        judge(ctx.repo, lambda: ctx.interp(lambda q, d: q.startswith(PRE)), f, spec, emit, lambda r: rep.ok(r), lambda f, why: rep.undecided_at(R1, f.qual, why))
    rep.count('helpers', n)
    rep.floor('helpers', 15)
    known = [q for q, f in ctx.repo.funcs.items() if q.startswith(PRE) and q.count('.') == 2 and not f.name.startswith('_') and q in ctx.baseline]
    for q in known:
        if q[len(PRE):] not in SPEC:
            rep.undecided_at(R1, q, 'no table of accepted kinds')


def run(ctx, rep):
    helpers(ctx, rep)
    repo, S = selftest.posrepo()
    found = set()
    for f in selftest.posfuncs('c10'):
        which = f.name.split('_', 1)[1].split('__')[-1]
        judge(repo, lambda: Interp(repo, policy=lambda q, d: 'inline', summaries=S), f, SPEC[which], lambda r, f, *a: found.add(f.name), lambda r: None, lambda *a: None)
    selftest.exact(rep, 'C10', 'c10', found)
    rep.assumptions += ['numpy registers its integer and floating types with the abstract numbers classes; numpy.isrealobj looks at the element type only',
                        'booleans are left open where a number is asked for, and arrays of strings where only the number of dimensions is']

"""Hash-consed value-graph terms."""

_TABLE = {}


class T:
    __slots__ = ('op', 'a', 'n', 'py', '_atoms')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op, a)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.n, t.py, t._atoms = op, a, len(_TABLE), None, None
        _TABLE[key] = t
    return t


def const(v):
    t = mk('const', type(v).__name__, repr(v))
    t.py = v
    return t


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk('undef')


def is_const(t):
    return t.op == 'const'


def cval(t, default=None):
    return t.py if t.op == 'const' else default


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def walk(t, seen=None):
    """All distinct sub-terms (pre-order)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.n in seen:
            continue
        seen.add(x.n)
        yield x
        stack.extend(children(x))


def rebuild(t, f):
    """Rebuild t with f applied to each direct child term."""
    def g(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    na = tuple(g(x) for x in t.a)
    if na == t.a:
        return t
    return simp(t.op, na)


def subst(t, m, memo=None):
    """m: dict T->T."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t.n)
    if r is None:
        r = rebuild(t, lambda x: subst(x, m, memo))
        memo[t.n] = r
    return r


def simp(op, a):
    """Rebuild through smart constructors."""
    f = SMART.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


# ------------------------------------------------------------------ smart constructors
def phi(c, a, b):
    if a is b:
        return a
    if c.op == 'const':
        return a if c.py else b
    if c.op == 'not':
        return phi(c.a[0], b, a)
    if a.op == 'phi' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'phi' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    # phi(c, phi(d, x, y), y) and phi(c, x, phi(d, x, y)) are left as they are
    return mk('phi', c, a, b)


def not_(c):
    if c.op == 'const':
        try:
            return const(not c.py)
        except Exception:
            return mk('not', c)
    if c.op == 'not':
        return c.a[0]
    return mk('not', c)


def and_(*cs):
    out = []
    for c in cs:
        if c.op == 'and':
            out.extend(c.a)
        else:
            out.append(c)
    r = []
    for c in out:
        if c.op == 'const':
            if not c.py:
                return FALSE
            continue
        if c not in r:
            r.append(c)
    for c in r:
        if not_(c) in r:
            return FALSE
    if not r:
        return TRUE
    if len(r) == 1:
        return r[0]
    r.sort(key=lambda t: t.n)
    return mk('and', *r)


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


COMM = {'Add', 'Mult', 'BitAnd', 'BitOr'}


def binop(op, a, b):
    if a.op == 'const' and b.op == 'const':
        x, y = a.py, b.py
        num = (int, float, complex)
        try:
            if isinstance(x, num) and isinstance(y, num):
                if op == 'Add':
                    return const(x + y)
                if op == 'Sub':
                    return const(x - y)
                if op == 'Mult':
                    return const(x * y)
                if op == 'Div' and y != 0:
                    return const(x / y)
                if op == 'FloorDiv' and y != 0:
                    return const(x // y)
                if op == 'Mod' and y != 0:
                    return const(x % y)
                if op == 'Pow' and abs(y) <= 64:
                    return const(x ** y)
            if op == 'Add' and isinstance(x, str) and isinstance(y, str):
                return const(x + y)
            if op == 'Mod' and isinstance(x, str) and isinstance(y, (int, str, float)):
                return const(x % y)
        except Exception:
            pass
    if op in ('BitAnd', 'BitOr') and boolish(a) and boolish(b):
        return and_(a, b) if op == 'BitAnd' else or_(a, b)
    if op == 'Add' and (a.op in ('list', 'tuple') and b.op == a.op):
        return mk(a.op, *(a.a + b.a))
    if op == 'Add' and a.op == 'const' and a.py == 0 and not isinstance(a.py, bool) and isinstance(a.py, int):
        return b
    if op == 'Add' and b.op == 'const' and b.py == 0 and not isinstance(b.py, bool) and isinstance(b.py, int):
        return a
    if op == 'Sub' and b.op == 'const' and b.py == 0 and isinstance(b.py, int):
        return a
    if op in COMM and not (op == 'Add' and (listy(a) or listy(b))) and not (op == 'Mult' and (listy(a) or listy(b))):
        if a.n > b.n:
            a, b = b, a
    return mk('bin', op, a, b)


def listy(t):
    return (t.op in ('list', 'tuple', 'fstr', 'fmt') or (t.op == 'const' and isinstance(t.py, (str, bytes)))
            or (t.op == 'bin' and t.a[0] == 'Add' and (listy(t.a[1]) or listy(t.a[2]))))


def unop(op, a):
    if op == 'Not':
        return not_(truth(a))
    if a.op == 'const' and isinstance(a.py, (int, float, complex)):
        if op == 'USub':
            return const(-a.py)
        if op == 'UAdd':
            return const(+a.py)
    if op == 'Invert' and boolish(a):
        return not_(a)
    return mk('un', op, a)


def boolish(t):
    return t.op in ('cmp', 'and', 'not', 'cieq') or (t.op == 'const' and isinstance(t.py, bool))


def casefold_arg(t):
    """(x) if t is x.upper()/x.lower()/x.casefold()"""
    if t.op == 'meth' and t.a[0] in ('upper', 'lower', 'casefold') and not t.a[2] and not t.a[3]:
        return t.a[1], t.a[0]
    return None


def cmpop(op, a, b):
    if op == 'NotEq':
        return not_(cmpop('Eq', a, b))
    if op == 'IsNot':
        return not_(cmpop('Is', a, b))
    if op == 'NotIn':
        return not_(cmpop('In', a, b))
    if op == 'Gt':
        return cmpop('Lt', b, a)
    if op == 'GtE':
        return cmpop('LtE', b, a)
    if a.op == 'const' and b.op == 'const':
        x, y = a.py, b.py
        try:
            if op == 'Eq':
                return const(bool(x == y))
            if op == 'Is':
                return const(type(x) is type(y) and x == y)
            if op == 'Lt':
                return const(bool(x < y))
            if op == 'LtE':
                return const(bool(x <= y))
            if op == 'In':
                return const(x in y)
        except Exception:
            pass
    if op in ('Eq', 'Is'):
        for u, v in ((a, b), (b, a)):
            if v is TRUE and op == 'Eq':
                return truth(u)
            if v is FALSE and op == 'Eq':
                return not_(truth(u))
            if v.op == 'const' and isinstance(v.py, str):
                cf = casefold_arg(u)
                if cf:
                    want = v.py.upper() if cf[1] == 'upper' else v.py.lower()
                    if want != v.py:
                        return FALSE      # can never be equal
                    if cf[0].op == 'const' and isinstance(cf[0].py, str):
                        return const(cf[0].py.lower() == v.py.lower())
                    return mk('cieq', cf[0], v.py.lower())
        if a is NONE and b.op in ('new', 'list', 'tuple', 'dict', 'obj', 'clo', 'func', 'bin'):
            return FALSE
        if b is NONE and a.op in ('new', 'list', 'tuple', 'dict', 'obj', 'clo', 'func', 'bin'):
            return FALSE
        if a is b and op == 'Is':
            return TRUE
        if a.n > b.n:
            a, b = b, a
        return mk('cmp', op, a, b)
    if op == 'In' and b.op in ('list', 'tuple', 'set'):
        if not any(x.op == 'star' for x in b.a):
            return or_(*[cmpop('Eq', a, x) for x in b.a]) if b.a else FALSE
    if op == 'In' and b.op == 'dict':
        if all(isinstance(k, T) and k is not NONE for k, _ in b.a):
            return or_(*[cmpop('Eq', a, k) for k, _ in b.a]) if b.a else FALSE
    return mk('cmp', op, a, b)


def truth(t):
    """Canonical truth value of t."""
    if t.op == 'const':
        try:
            return const(bool(t.py))
        except Exception:
            return t
    if t.op in ('list', 'tuple'):
        return const(len(t.a) > 0)
    if t.op in ('func', 'clo', 'obj', 'class'):
        return TRUE
    if t.op == 'phi':
        a, b = truth(t.a[1]), truth(t.a[2])
        if a.op == 'const' and b.op == 'const':
            if a.py == b.py:
                return a
            return t.a[0] if a.py else not_(t.a[0])
        if boolish(a) or boolish(b):
            return or_(and_(t.a[0], a), and_(not_(t.a[0]), b))
        return t
    # any(x == c)  ->  c in x
    inner = None
    if t.op == 'call' and t.a[0] in ('numpy.any', 'any') and len(t.a[1]) == 1 and not t.a[2]:
        inner = t.a[1][0]
    elif t.op == 'meth' and t.a[0] == 'any' and not t.a[2]:
        inner = t.a[1]
    if inner is not None and inner.op == 'cmp' and inner.a[0] == 'Eq':
        u, v = inner.a[1], inner.a[2]
        if u.op == 'const':
            u, v = v, u
        if v.op == 'const' or v.op == 'iv':
            return cmpop('In', v, u)
    if inner is not None and inner.op == 'call' and inner.a[0] == 'numpy.isin' and len(inner.a[1]) == 2:
        return cmpop('In', inner.a[1][1], inner.a[1][0]) if inner.a[1][1].op == 'const' else t
    if t.op == 'call' and t.a[0] == 'bool' and len(t.a[1]) == 1:
        return truth(t.a[1][0])
    if t.op == 'call' and t.a[0] in ('numpy.logical_not',) and len(t.a[1]) == 1:
        return not_(truth(t.a[1][0]))
    if t.op == 'call' and t.a[0] in ('numpy.logical_and', 'numpy.logical_or') and len(t.a[1]) == 2:
        f = and_ if t.a[0].endswith('and') else or_
        return f(truth(t.a[1][0]), truth(t.a[1][1]))
    return t


def length(t):
    if t.op in ('list', 'tuple', 'set'):
        if not any(x.op == 'star' for x in t.a):
            return const(len(t.a))
    if t.op == 'const' and isinstance(t.py, (str, tuple)):
        return const(len(t.py))
    if t.op == 'comp' and not t.a[4]:
        return t.a[2]
    if t.op == 'range':
        return binop('Sub', t.a[1], t.a[0])
    if t.op == 'zip':
        return length(t.a[0])
    if t.op == 'enum':
        return length(t.a[0])
    if plain_arange(t):
        return t.a[1][0]
    return mk('len', t)


def plain_arange(t):
    """arange(n) or arange(n, dtype=int): its i-th element is i"""
    return t.op == 'call' and t.a[0] == 'numpy.arange' and len(t.a[1]) == 1 and all(k == 'dtype' and v.op == 'ext' and v.a[0] == 'int' for k, v in t.a[2])


def idx(b, i):
    if b.op in ('list', 'tuple') and i.op == 'const' and isinstance(i.py, int) and not isinstance(i.py, bool):
        if not any(x.op == 'star' for x in b.a) and -len(b.a) <= i.py < len(b.a):
            return b.a[i.py]
    if b.op == 'const' and isinstance(b.py, (str, tuple)) and i.op == 'const' and isinstance(i.py, int):
        try:
            return const(b.py[i.py])
        except Exception:
            pass
    if b.op == 'dict' and i.op == 'const':
        for k, v in reversed(b.a):
            if k is i:
                return v
    if b.op == 'comp' and b.a[0] == 'list' and not b.a[4] and i.op not in ('slice', 'tuple'):
        return subst(b.a[1], {mk('iv', b.a[2], b.a[3]): i})
    if b.op == 'range' and i.op not in ('slice', 'tuple'):
        return binop('Add', b.a[0], i)
    if plain_arange(b) and i.op == 'iv':
        return i
    if b.op == 'zip' and i.op not in ('slice', 'tuple'):
        return mk('tuple', *[idx(x, i) for x in b.a])
    if b.op == 'enum' and i.op not in ('slice', 'tuple'):
        return mk('tuple', binop('Add', i, b.a[1]), idx(b.a[0], i))
    if b.op == 'phi':
        # distribute over literal sequences only
        if b.a[1].op in ('list', 'tuple', 'dict') and b.a[2].op in ('list', 'tuple', 'dict'):
            return phi(b.a[0], idx(b.a[1], i), idx(b.a[2], i))
    if b.op == 'upd' and b.a[1] is i:
        return b.a[2]
    if b.op == 'upd' and b.a[1].op == 'const' and i.op == 'const':
        return idx(b.a[0], i)
    return mk('idx', b, i)


def upd(b, i, v):
    if b.op in ('list',) and i.op == 'const' and isinstance(i.py, int) and -len(b.a) <= i.py < len(b.a):
        l = list(b.a)
        l[i.py] = v
        return mk('list', *l)
    if b.op == 'dict' and i.op == 'const':
        l = [(k, x) for k, x in b.a if k is not i]
        l.append((i, v))
        return mk('dict', *l)
    if b.op == 'upd' and b.a[1] is i:
        b = b.a[0]
    return mk('upd', b, i, v)


SMART = {
    'phi': phi, 'not': not_, 'and': and_, 'bin': binop, 'un': unop, 'cmp': cmpop,
    'idx': idx, 'upd': upd, 'len': length,
}


# ------------------------------------------------------------------ printing
_OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Pow': '**', 'MatMult': '@', 'FloorDiv': '//',
        'Mod': '%', 'Eq': '==', 'Lt': '<', 'LtE': '<=', 'In': 'in', 'Is': 'is', 'BitAnd': '&', 'BitOr': '|'}


def show(t, d=7):
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return '…'
    s = lambda x: show(x, d - 1)
    o, a = t.op, t.a
    if o == 'const':
        return a[1]
    if o == 'param':
        return a[1]
    if o == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if o in ('ext', 'func', 'class', 'mod'):
        return a[0]
    if o == 'glob':
        return '%s.%s' % a
    if o == 'bin':
        return '(%s %s %s)' % (s(a[1]), _OPS.get(a[0], a[0]), s(a[2]))
    if o == 'cmp':
        return '(%s %s %s)' % (s(a[1]), _OPS.get(a[0], a[0]), s(a[2]))
    if o == 'cieq':
        return '(%s ~= %r)' % (s(a[0]), a[1])
    if o == 'un':
        return '%s(%s)' % (a[0], s(a[1]))
    if o == 'not':
        return 'not %s' % s(a[0])
    if o == 'and':
        return '(' + ' and '.join(s(x) for x in a) + ')'
    if o == 'phi':
        return '[%s ? %s : %s]' % (s(a[0]), s(a[1]), s(a[2]))
    if o == 'idx':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'slice':
        return ':'.join('' if x is NONE else s(x) for x in a)
    if o == 'tuple':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if o == 'list':
        return '[' + ', '.join(s(x) for x in a) + ']'
    if o == 'dict':
        return '{' + ', '.join('%s: %s' % (s(k), s(v)) for k, v in a) + '}'
    if o == 'call':
        return '%s(%s)' % (s(a[0]), ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    if o == 'meth':
        return '%s.%s(%s)' % (s(a[1]), a[0], ', '.join([s(x) for x in a[2]] + ['%s=%s' % (k, s(v)) for k, v in a[3]]))
    if o == 'iv':
        return 'i%s<%s' % (a[1], s(a[0]))
    if o == 'upd':
        return '%s{%s:=%s}' % (s(a[0]), s(a[1]), s(a[2]))
    if o == 'comp':
        return '%s(%s for i%s<%s)' % (a[0], s(a[1]), a[3], s(a[2]))
    if o == 'mu':
        return 'µ%s' % (a[-1],)
    if o == 'view':
        return 'view(%s)' % s(a[0])
    if o == 'new':
        return 'new%s' % a[0]
    return '%s(%s)' % (o, ', '.join(s(x) if isinstance(x, T) else
                                   ('(' + ','.join(s(y) if isinstance(y, T) else str(y) for y in x) + ')' if isinstance(x, tuple) else str(x))
                                   for x in a))


def path_of(t):
    """(root term, dotted path) for attr/idx chains; root is the first non attr/idx term."""
    parts = []
    while True:
        if t.op == 'attr':
            parts.append('.' + t.a[1])
            t = t.a[0]
        elif t.op == 'idx':
            parts.append('[]')
            t = t.a[0]
        elif t.op == 'view':
            parts.append('')
            t = t.a[0]
        elif t.op == 'aview':
            parts.append('')
            t = t.a[1]
        else:
            break
    return t, ''.join(reversed(parts))


def dotted(t):
    """'mp.dm1.V' style string when rooted at a parameter, else None."""
    r, p = path_of(t)
    if r.op == 'param':
        return r.a[1] + p
    return None


def paths_in(t):
    """Set of maximal dotted access paths (rooted at parameters) that t depends on."""
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.n in seen:
            continue
        seen.add(x.n)
        if x.op in ('attr', 'param', 'idx'):
            d = dotted(x)
            if d is not None:
                out.add(d)
                # still visit index expressions
                y = x
                while y.op in ('attr', 'idx'):
                    if y.op == 'idx':
                        stack.append(y.a[1])
                    y = y.a[0]
                continue
        stack.extend(children(x))
    return out

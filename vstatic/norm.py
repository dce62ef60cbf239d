"""Canonical forms of value-graph terms and a three-valued comparison of two values.

EQUAL      the two terms have the same canonical form under every combination of the conditions they branch on
DIFFERENT  they differ under a consistent combination of conditions although both are built from the same operators
UNKNOWN    anything else (an operator on one side that the other side does not use, a loop the engine could not summarise, budget)

The rewriting is purely syntactic (commutative polynomial arithmetic over atoms, products of exponentials, conjugates,
transposes, matrix chains, sums); conditions are compared by enumerating their truth values, with the values of an option
string mutually exclusive.  Nothing is evaluated numerically and no solver is asked.
"""
import hashlib
import json
import random
import time
import os
from fractions import Fraction

from .terms import T, mk, const, NONE, TRUE, FALSE, children, walk, rebuild

EQUAL, DIFFERENT, UNKNOWN = 'EQUAL', 'DIFFERENT', 'UNKNOWN'
_SIGS = json.load(open(os.path.join(os.path.dirname(__file__), 'extsigs.json')))
MAXTERMS = 120

IDENT = {'numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'copy.copy', 'copy.deepcopy', 'float', 'complex',
         'numpy.asfarray', 'numpy.float64', 'numpy.complex128', 'numpy.asarray_chkfinite'}
ALIAS = {'numpy.conjugate': 'numpy.conj', 'numpy.absolute': 'numpy.abs', 'abs': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'math.fabs': 'numpy.abs',
         'math.sqrt': 'numpy.sqrt', 'math.exp': 'numpy.exp', 'cmath.exp': 'numpy.exp', 'cmath.sqrt': 'numpy.sqrt',
         'math.sin': 'numpy.sin', 'math.cos': 'numpy.cos', 'math.tan': 'numpy.tan', 'math.floor': 'numpy.floor', 'math.ceil': 'numpy.ceil',
         'math.log': 'numpy.log', 'math.log10': 'numpy.log10', 'math.log2': 'numpy.log2', 'math.atan2': 'numpy.arctan2',
         'sum': 'numpy.sum', 'numpy.fft.fftn': 'numpy.fft.fft2', 'numpy.fft.ifftn': 'numpy.fft.ifft2', 'numpy.mod': 'numpy.remainder',
         'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.float_power': 'numpy.power', 'numpy.true_divide': 'numpy.divide',
         'scipy.fft.fft2': 'numpy.fft.fft2', 'scipy.fft.ifft2': 'numpy.fft.ifft2', 'scipy.fft.fftshift': 'numpy.fft.fftshift',
         'scipy.fft.ifftshift': 'numpy.fft.ifftshift', 'scipy.fft.fftfreq': 'numpy.fft.fftfreq', 'scipy.fft.fftn': 'numpy.fft.fft2', 'scipy.fft.ifftn': 'numpy.fft.ifft2', 'scipy.fftpack.fftshift': 'numpy.fft.fftshift', 'scipy.fftpack.ifftshift': 'numpy.fft.ifftshift',
         'numpy.matmul': 'mm', 'numpy.dot': 'mm'}
METHFN = {'sum': 'numpy.sum', 'mean': 'numpy.mean', 'max': 'numpy.max', 'min': 'numpy.min', 'conj': 'numpy.conj', 'conjugate': 'numpy.conj',
          'any': 'numpy.any', 'all': 'numpy.all', 'transpose': 'numpy.transpose', 'squeeze': 'numpy.squeeze', 'reshape': 'numpy.reshape',
          'ravel': 'numpy.ravel', 'flatten': 'numpy.ravel', 'cumsum': 'numpy.cumsum', 'prod': 'numpy.prod', 'std': 'numpy.std', 'var': 'numpy.var',
          'argmax': 'numpy.argmax', 'argmin': 'numpy.argmin', 'nonzero': 'numpy.nonzero', 'trace': 'numpy.trace', 'diagonal': 'numpy.diagonal',
          'round': 'numpy.round', 'clip': 'numpy.clip', 'repeat': 'numpy.repeat', 'swapaxes': 'numpy.swapaxes', 'argsort': 'numpy.argsort'}
SIZES = {'NdmPad', 'NpadEven'}      # whole numbers: set by ceil_even wherever the package sets them
SCALARFN = {'int', 'float', 'len', 'falco.util.ceil_even', 'falco.util.ceil_odd', 'falco.util.nextpow2'}
ELEMENTWISE2 = {'numpy.multiply': 'Mult', 'numpy.add': 'Add', 'numpy.subtract': 'Sub', 'numpy.divide': 'Div', 'numpy.power': 'Pow',
                'numpy.remainder': 'Mod', 'operator.mod': 'Mod', 'numpy.floor_divide': 'FloorDiv',
                'operator.mul': 'Mult', 'operator.add': 'Add', 'operator.sub': 'Sub', 'operator.truediv': 'Div'}
# first parameter names of external functions without a recorded signature
SIGS2 = {'numpy.zeros': ['shape', 'dtype'], 'numpy.ones': ['shape', 'dtype'], 'numpy.empty': ['shape', 'dtype'], 'numpy.arange': None}
# operators with many equivalent spellings: a difference in their use decides nothing
EXPRESSIBLE = {'numpy.outer', 'numpy.where', 'numpy.maximum', 'numpy.minimum', 'numpy.angle', 'numpy.hypot', 'numpy.mean', 'numpy.average', 'numpy.linspace',
               'numpy.arange', 'numpy.meshgrid', 'numpy.eye', 'numpy.identity', 'numpy.diag', 'numpy.tile', 'numpy.repeat', 'numpy.einsum', 'numpy.tensordot',
               'numpy.clip', 'numpy.max', 'numpy.min', 'max', 'min', 'numpy.concatenate', 'numpy.stack', 'numpy.vstack', 'numpy.hstack', 'numpy.append',
               'numpy.remainder', 'numpy.floor_divide', 'divmod', 'int', 'round', 'numpy.floor', 'numpy.ceil', 'numpy.round', 'numpy.rint', 'numpy.trunc',
               'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like',
               'numpy.flip', 'numpy.flipud', 'numpy.fliplr', 'numpy.rot90', 'numpy.squeeze', 'numpy.reshape', 'numpy.ravel', 'numpy.isin', 'numpy.in1d',
               'numpy.logical_and', 'numpy.logical_or', 'numpy.logical_not', 'numpy.nonzero', 'numpy.argwhere', 'numpy.flatnonzero', 'len', 'numpy.size',
               'numpy.shape', 'numpy.ndim', 'numpy.log', 'numpy.log2', 'numpy.log10', 'numpy.sin', 'numpy.cos', 'numpy.tan', 'numpy.expand_dims', 'numpy.atleast_2d',
               'numpy.swapaxes', 'numpy.moveaxis', 'numpy.prod', 'numpy.cumsum', 'numpy.diff', 'numpy.sign', 'numpy.linalg.inv', 'numpy.linalg.solve',
               'numpy.linalg.lstsq', 'numpy.linalg.pinv', 'numpy.diagonal', 'comp', 'loop', 'appended', 'sorted', 'reversed', 'list', 'tuple', 'set', 'dict', 'range',
               'zip', 'enum', 'isinstance', 'numpy.any', 'numpy.all', 'any', 'all', 'last', 'hasattr', 'star', 'FloorDiv', 'Mod', 'upd', 'dictlit', 'listlit',
               'numpy.roll', 'numpy.linalg.norm', 'numpy.sum'}
OPAQUE = {'unk', 'mu', 'choicev', 'choice', 'lastdef', 'mut', 'reached', 'loopexit', 'attrdyn', 'entered', 'future', 'while', 'handler', 'excp', 'mayalias', 'captured',
          'default', 'clo', 'bound', 'partial', 'undef', 'new'}


def num(x):
    """Canonical coefficient (real, imag) of a Python number."""
    z = complex(x)
    return (_r(z.real), _r(z.imag))


def _r(v):
    if v == int(v) and abs(v) < 1e15:
        return Fraction(int(v))
    return Fraction(float('%.12g' % v))


def cmul(a, b):
    return (_rf(a[0] * b[0] - a[1] * b[1]), _rf(a[0] * b[1] + a[1] * b[0]))


def _rf(f):
    if f.denominator == 1:
        return f
    if f.denominator < 10 ** 6 and abs(f.numerator) < 10 ** 9:
        return f
    return Fraction(float('%.11g' % float(f)))


def cadd(a, b):
    return (_rf(a[0] + b[0]), _rf(a[1] + b[1]))


def cinv(a):
    d = a[0] * a[0] + a[1] * a[1]
    return (_rf(a[0] / d), _rf(-a[1] / d))


ONE = (Fraction(1), Fraction(0))
MINUS = (Fraction(-1), Fraction(0))
ZERO = (Fraction(0), Fraction(0))


def okey(t):
    """Ordering key that does not depend on creation order (structural text)."""
    k = t._atoms
    if k is None:
        k = t._atoms = _okey(t)
    return k


def _okey(t):
    def g(x):
        if isinstance(x, T):
            return okey(x)
        if isinstance(x, tuple):
            return '(' + ','.join(g(y) for y in x) + ')'
        return str(x)
    s = t.op + '(' + ','.join(g(x) for x in t.a) + ')'
    if len(s) > 200:
        import hashlib
        s = s[:80] + '#' + hashlib.md5(s.encode()).hexdigest()
    return s


def poly(d):
    """dict monomial -> coefficient  to a canonical term."""
    items = [(m, c) for m, c in d.items() if c != ZERO]
    if not items:
        return const(0)
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return cnum(c)
        if c == ONE and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((okey(a), str(e)) for a, e in mc[0]))
    return mk('poly', tuple((tuple(m), c) for m, c in items))


def cnum(c):
    re, im = c
    if im == 0:
        return const(int(re)) if re.denominator == 1 else const(float(re))
    return const(complex(float(re), float(im)))


def aspoly(t):
    if t.op == 'poly':
        return {m: c for m, c in t.a[0]}
    if t.op == 'const' and isinstance(t.py, (int, float, complex)) and t.py == t.py and abs(t.py) != float('inf'):
        c = num(t.py)
        return {(): c} if c != ZERO else {}
    return {((t, Fraction(1)),): ONE}


def padd(a, b, sb=ONE):
    r = dict(a)
    for m, c in b.items():
        r[m] = cadd(r.get(m, ZERO), cmul(c, sb))
        if r[m] == ZERO:
            del r[m]
    return r


def mmul(m1, m2):
    d = {}
    ex = None
    for a, e in m1 + m2:
        if a.op == 'exp':
            arg = {m: cmul(c, (e, Fraction(0))) for m, c in aspoly(a.a[0]).items()}
            ex = arg if ex is None else padd(ex, arg)
            continue
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    if ex:
        x = mk('exp', poly(ex))
        d[x] = Fraction(1)
    return tuple(sorted(d.items(), key=lambda ae: okey(ae[0])))


def pmul(a, b):
    if len(a) * len(b) > MAXTERMS:
        pa, pb = poly(a), poly(b)
        return {mmul(((pa, Fraction(1)),), ((pb, Fraction(1)),)): ONE}
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            c = cadd(r.get(m, ZERO), cmul(c1, c2))
            if c == ZERO:
                r.pop(m, None)
            else:
                r[m] = c
    return r


def ppow(a, e):
    """a ** e for a rational e."""
    if not a:
        return {} if e > 0 else None
    if len(a) == 1:
        (m, c), = a.items()
        if e.denominator == 1:
            cc = ONE
            for _ in range(abs(int(e))):
                cc = cmul(cc, c)
            if e < 0:
                cc = cinv(cc)
        elif c == ONE:
            cc = ONE
        elif c[1] == 0 and c[0] > 0:
            cc = num(float(c[0]) ** float(e))
        else:
            return None
        mm = []
        for x, k in m:
            if x.op == 'exp':
                mm.append((mk('exp', poly({q: cmul(v, (e * k, Fraction(0))) for q, v in aspoly(x.a[0]).items()})), Fraction(1)))
            else:
                mm.append((x, k * e))
        return {mmul(tuple(mm), ()): cc}
    if e.denominator == 1 and 0 < e <= 3 and len(a) ** int(e) <= MAXTERMS:
        r = a
        for _ in range(int(e) - 1):
            r = pmul(r, a)
        return r
    # make the leading coefficient one so that equal bases meet
    first = min(a, key=lambda m: tuple((okey(x), str(k)) for x, k in m))
    c = a[first]
    if e.denominator == 1 or (c[1] == 0 and c[0] > 0):
        base = {m: cmul(v, cinv(c)) for m, v in a.items()}
        ce = ppow({(): c}, e)
        if ce is not None:
            k = ce.get((), ONE) if ce else ONE
            return {((poly(base), e),): k}
    return {((poly(a), e),): ONE}


def neg(t):
    return poly({m: cmul(c, MINUS) for m, c in aspoly(t).items()})


def mul(a, b):
    return poly(pmul(aspoly(a), aspoly(b)))


def add(a, b):
    return poly(padd(aspoly(a), aspoly(b)))


def split_coef(t):
    """(coefficient, rest) for a one-term value; sums get coefficient one with a positive leading sign."""
    p = aspoly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return c, poly({m: ONE})
    return ONE, t


class Norm:
    def __init__(self, env=None, subst=None, kill=(), scalars=()):
        self.scalars = scalars          # atoms that the argument checks establish to be single numbers
        self.env = env or {}            # canonical condition -> bool
        self.memo = {}
        self.sub = subst or {}
        self.eqs = {}                   # canonical atom -> constant, from equalities assumed true
        for c, v in self.env.items():
            if v and c.op == 'cmp' and c.a[0] == 'Eq':
                for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                    if y.op == 'const' and x.op != 'const' and isinstance(y.py, (int, float)):
                        self.eqs[x] = y

    def __call__(self, t):
        r = self.memo.get(t.n)
        if r is None:
            r = self.nf(t)
            r = self.eqs.get(r, r)
            self.memo[t.n] = r
        return r

    # -------------------------------------------------------------- conditions
    def cond(self, c):
        """Canonical condition, decided by the environment when possible."""
        if c.op == 'const':
            try:
                return TRUE if c.py else FALSE
            except Exception:
                return c
        if c.op == 'not':
            x = self.cond(c.a[0])
            return FALSE if x is TRUE else TRUE if x is FALSE else mk('not', x)
        if c.op == 'and':
            out = []
            for x in c.a:
                y = self.cond(x)
                if y is FALSE:
                    return FALSE
                if y is TRUE or y in out:
                    continue
                out.append(y)
            if not out:
                return TRUE
            if len(out) == 1:
                return out[0]
            return mk('and', *sorted(out, key=okey))
        if c.op == 'phi':
            k = self.cond(c.a[0])
            if k is TRUE:
                return self.cond(c.a[1])
            if k is FALSE:
                return self.cond(c.a[2])
            a, b = self.cond(c.a[1]), self.cond(c.a[2])
            return a if a is b else self.boolphi(k, a, b)
        x = self(c)
        if x.op == 'const':
            try:
                return TRUE if x.py else FALSE
            except Exception:
                return x
        if x.op == 'poly' or x.op == 'bin' or (x.op == 'call' and x.a[0] in ('numpy.remainder', 'len')):
            # truth of a number
            y = self.compare('Eq', x, const(0))
            return self.cond(mk('not', y)) if y.op != 'const' else (FALSE if y is TRUE else TRUE)
        return self.decide(x)

    def boolphi(self, c, x, y):
        """A choice between truth values is a conjunction."""
        if (x in (TRUE, FALSE) and boolean(y)) or (y in (TRUE, FALSE) and boolean(x)):
            if x is TRUE and y is FALSE:
                return c if boolean(c) else mk('phi', c, x, y)
            if y is FALSE:
                return self.cond(mk('and', c, x))
            if y is TRUE:
                return self.cond(mk('not', mk('and', c, mk('not', x))))
            if x is FALSE:
                return self.cond(mk('and', mk('not', c), y))
            return self.cond(mk('not', mk('and', mk('not', c), mk('not', y))))
        return mk('phi', c, x, y)

    def decide(self, x):
        v = self.env.get(x)
        if v is not None:
            return TRUE if v else FALSE
        # values of one option string exclude each other
        k = strkey(x)
        if k is not None:
            for c, v in self.env.items():
                if v:
                    k2 = strkey(c)
                    if k2 is not None and k2[0] is k[0] and not compatible(k[1], k2[1]):
                        return FALSE
        return x

    # -------------------------------------------------------------- terms
    def args(self, xs):
        return tuple(self(x) for x in xs)

    def nf(self, t):
        op, a = t.op, t.a
        if t in self.sub:
            return self(self.sub[t]) if self.sub[t] is not t else t
        if op == 'const':
            if isinstance(t.py, (int, float, complex)) and not isinstance(t.py, bool):
                return cnum(num(t.py)) if t.py == t.py and abs(t.py) != float('inf') else t
            return t
        if op in ('param', 'ext', 'func', 'class', 'mod', 'glob', 'undef', 'clo'):
            return t
        if op == 'bin':
            return self.binary(a[0], self(a[1]), self(a[2]))
        if op == 'un':
            x = self(a[1])
            if a[0] == 'USub':
                return neg(x)
            if a[0] == 'UAdd':
                return x
            return mk('un', a[0], x)
        if op == 'phi':
            c = self.cond(a[0])
            if c is TRUE:
                return self(a[1])
            if c is FALSE:
                return self(a[2])
            if c.op == 'not':
                c, x, y = c.a[0], self(a[2]), self(a[1])
            else:
                x, y = self(a[1]), self(a[2])
            return x if x is y else self.boolphi(c, x, y)
        if op in ('not', 'and'):
            return self.cond(t)
        if op == 'cmp':
            r = self.compare(a[0], self(a[1]), self(a[2]))
            if r.op == 'not':
                x = self.decide(r.a[0])
                return FALSE if x is TRUE else TRUE if x is FALSE else mk('not', x)
            return self.decide(r)
        if op == 'cieq':
            return self.decide(mk('cieq', self(a[0]), a[1]))
        if op == 'call':
            return self.callterm(t)
        if op == 'meth':
            return self.methterm(t)
        if op == 'aattr':
            x = self(a[0])
            return self.aattr(x, a[1])
        if op == 'attr':
            b = self(a[0])
            if b.op == 'phi':
                x, y = self(mk('attr', b.a[1], a[1])), self(mk('attr', b.a[2], a[1]))
                return x if x is y else mk('phi', b.a[0], x, y)
            if b.op == 'snap':
                for k, v in b.a[1]:
                    if k == a[1]:
                        return v
            if a[1] in ('real', 'imag', 'T', 'shape', 'size', 'ndim'):
                return self.aattr(b, a[1])
            return mk('attr', b, a[1])
        if op == 'aview':
            return self(a[0])
        if op == 'scopy':
            return self(a[0])
        if op == 'view':
            from .interp import Interp
            return self(Interp.apply_view(None, a[1], a[0]))
        if op == 'idx':
            return self.index(self(a[0]), self(a[1]))
        if op == 'loop':
            return self.loop(t)
        if op == 'rec':
            return self.rec(t)
        if op == 'poly':
            # an already canonical sum, under further branch conditions
            r = {}
            for m, c in a[0]:
                p = {(): c}
                for x, e in m:
                    q = ppow(aspoly(self(x)), e)
                    if q is None:
                        return self.generic(t)
                    p = pmul(p, q)
                r = padd(r, p)
            return poly(r)
        if op == 'mm':
            return self.matmul(*self.args(a))
        if op == 'exp':
            x = self(a[0])
            return const(1) if not aspoly(x) else mk('exp', x)
        if op == 'conj':
            return self.conj(self(a[0]))
        if op == 'abs':
            return self.abs_(self(a[0]))
        if op in ('real', 'imag'):
            return self.realpart(self(a[0]), op)
        if op == 'tr':
            return self.transpose(self(a[0]))
        if op == 'iv':
            return mk('iv', self(a[0]) if isinstance(a[0], T) else a[0], a[1])
        if op == 'comp':
            return mk('comp', a[0], self(a[1]), self(a[2]), a[3], tuple(self.cond(x) for x in a[4]))
        if op == 'len':
            x = self(a[0])
            return self.aattr(x, 'len')
        if op == 'upd':
            return mk('upd', self(a[0]), self(a[1]), self(a[2]))
        if op == 'tuple' and len(a) and all(isinstance(x, T) for x in a):
            return mk('tuple', *self.args(a))
        return self.generic(t)

    def generic(self, t):
        def g(x):
            if isinstance(x, T):
                return self(x)
            if isinstance(x, tuple):
                return tuple(g(y) for y in x)
            return x
        return mk(t.op, *[g(x) for x in t.a])

    def binary(self, op, x, y):
        if op == 'Add':
            if seqlike(x) or seqlike(y):
                return mk('bin', 'Add', x, y)
            return add(x, y)
        if op == 'Sub':
            return add(x, neg(y))
        if op == 'Mult':
            if seqlike(x) or seqlike(y):
                return mk('bin', 'Mult', x, y)
            return mul(x, y)
        if op == 'Div':
            q = ppow(aspoly(y), Fraction(-1))
            if q is None:
                return mk('bin', 'Div', x, y)
            return poly(pmul(aspoly(x), q))
        if op == 'Pow':
            return self.power(x, y)
        if op == 'MatMult':
            return self.matmul(x, y)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = sorted((x, y), key=okey)
        return mk('bin', op, x, y)

    def power(self, x, y):
        if y.op == 'const' and isinstance(y.py, (int, float)) and not isinstance(y.py, bool) and abs(y.py) < 20:
            e = Fraction(y.py).limit_denominator(1000)
            p = aspoly(x)
            if len(p) == 1 and e.denominator == 1 and e % 2 == 0 and e > 0:
                (m, c), = p.items()
                if len(m) == 1 and m[0][0].op == 'abs' and m[0][1] == 1:
                    z = m[0][0].a[0]
                    p = pmul(aspoly(z), aspoly(self.conj(z)))
                    p = {q: cmul(v, cmul(c, c)) for q, v in p.items()}
                    e = e / 2
            r = ppow(p, e)
            if r is not None:
                return poly(r)
        return mk('bin', 'Pow', x, y)

    def matmul(self, *xs):
        coef = ONE
        front = ()
        chain = []
        for x in xs:
            c, r = split_coef(x)
            coef = cmul(coef, c)
            p = aspoly(r)
            if len(p) == 1:
                (m, c), = p.items()
                sc = tuple((a, e) for a, e in m if self.scalar(a))
                rest = tuple((a, e) for a, e in m if not self.scalar(a))
                if sc and rest:
                    front = mmul(front, sc)
                    coef = cmul(coef, c)
                    r = poly({rest: ONE})
            if r.op == 'mm':
                chain.extend(r.a)
            else:
                chain.append(r)
        if len(chain) == 1:
            r = chain[0]
        else:
            r = mk('mm', *chain)
        return poly({mmul(front, m): cmul(v, coef) for m, v in aspoly(r).items()})

    def scalar(self, a, d=0):
        if a in self.scalars or a.op == 'const' or a.op == 'iv' or (a.op == 'ext' and a.a[0] == 'numpy.pi'):
            return True
        if d > 6:
            return False
        if a.op == 'poly':
            return all(self.scalar(x, d + 1) for m in aspoly(a) for x, e in m)
        if a.op in ('exp', 'abs', 'real', 'imag', 'conj'):
            return self.scalar(a.a[0], d + 1)
        if a.op == 'aattr':
            return a.a[1] in ('size', 'ndim')
        if a.op == 'idx':
            return a.a[0].op == 'aattr' and a.a[0].a[1] == 'shape' and a.a[1].op == 'const'
        if a.op == 'call':
            return a.a[0] in SCALARFN
        return a.op == 'len'

    def conj(self, x):
        p = aspoly(x)
        out = {}
        for m, c in p.items():
            mm = ()
            for a, e in m:
                mm = mmul(mm, ((self.conj_atom(a), e),))
            out[mm] = cadd(out.get(mm, ZERO), (c[0], -c[1]))
        return poly(out)

    def conj_atom(self, a):
        if a.op == 'conj':
            return a.a[0]
        if a.op == 'exp':
            return mk('exp', self.conj(a.a[0]))
        if a.op in ('abs', 'real', 'imag', 'iv', 'len') or (a.op == 'ext' and a.a[0] == 'numpy.pi') or (a.op == 'aattr' and a.a[1] in ('shape', 'size')):
            return a
        if a.op == 'tr':
            return mk('tr', self.conj(a.a[0]))
        if a.op == 'mm':
            return self.matmul(*[self.conj(x) for x in a.a])
        if a.op == 'poly':
            return self.conj(a)
        if a.op == 'idx':
            b = self.conj(a.a[0])
            if b.op == 'conj':
                return mk('conj', a)
            return mk('idx', b, a.a[1])
        if a.op == 'call' and a.a[0] in ('numpy.sum',):
            return mk('conj', a)
        return mk('conj', a)

    def abs_(self, x):
        if not aspoly(x):
            return const(0)
        c, r = split_coef(x)
        k = num(abs(complex(float(c[0]), float(c[1]))))
        if r.op == 'conj':
            r = r.a[0]
        p = aspoly(r)
        if len(p) > 1:
            first = min(p, key=lambda m: tuple((okey(x), str(e)) for x, e in m))
            if p[first][0] < 0 or (p[first][0] == 0 and p[first][1] < 0):
                r = neg(r)
        if r is const(1):
            return cnum(k)
        return poly({((mk('abs', r), Fraction(1)),): k})

    def realpart(self, x, which):
        cj = self.conj(x)
        if cj is x:
            return x if which == 'real' else const(0)
        p = aspoly(x)
        out = {}
        for m, c in p.items():
            for part, z in ((c[0], 'r'), (c[1], 'i')):
                if part == 0:
                    continue
                # (part) * m  or  (i part) * m
                rest = poly({m: ONE})
                if which == 'real':
                    w, s = ('real', 1) if z == 'r' else ('imag', -1)
                else:
                    w, s = ('imag', 1) if z == 'r' else ('real', 1)
                if rest is const(1):
                    if w == 'imag':
                        continue
                    key = ()
                elif self.conj(rest) is rest:
                    if w == 'imag':
                        continue
                    key = m
                else:
                    key = ((mk(w, rest), Fraction(1)),)
                out[key] = cadd(out.get(key, ZERO), (part * s, Fraction(0)))
        return poly(out)

    def transpose(self, x):
        c, r = split_coef(x)
        if r.op == 'tr':
            r2 = r.a[0]
        elif r.op == 'flip2':
            r2 = flip2(self.transpose(r.a[0]), bool(r.a[2]), bool(r.a[1]))
        elif r.op == 'mm':
            r2 = self.matmul(*[self.transpose(y) for y in reversed(r.a)])
        elif r.op == 'idx' and r.a[1].op == 'tuple' and len(r.a[1].a) == 2 and \
                sorted([newaxis(r.a[1].a[0]), newaxis(r.a[1].a[1])]) == ['n', 's']:
            r2 = mk('idx', r.a[0], mk('tuple', r.a[1].a[1], r.a[1].a[0]))
        else:
            r2 = mk('tr', r)
        return poly({m: cmul(v, c) for m, v in aspoly(r2).items()})

    def aattr(self, x, name):
        if name == 'T':
            return self.transpose(x)
        if name in ('real', 'imag'):
            if x.op == 'upd' and x.a[1].op == 'vpath' and (x.a[1].a[1] is NONE or x.a[1].a[1] is const(Ellipsis)) and len(x.a[1].a[0]) == 1 and x.a[1].a[0][0].a[-1] == name:
                return x.a[2]           # the part that was overwritten as a whole
            return self.realpart(x, name)
        if name in ('shape', 'size', 'ndim', 'len', 'dtype'):
            x = self.shapeof(x)
        if name == 'len' and x.op == 'range' and (x.a[0] is const(0) or aspoly(x.a[0]) == {}):
            return x.a[1]
        if name == 'len':
            if x.op in ('list', 'tuple') and not any(y.op == 'star' for y in x.a):
                return const(len(x.a))
            return mk('len', x)
        return mk('aattr', x, name)

    def shapeof(self, x):
        """An operand with the same shape (numeric factors and conjugation do not matter)."""
        for _ in range(6):
            c, r = split_coef(x)
            if r.op in ('conj', 'abs', 'exp', 'real', 'imag'):
                x = r.a[0]
                continue
            x = r
            break
        return x

    def index(self, b, i):
        from .terms import idx
        c, r = split_coef(b)
        if r.op == 'phi':
            x, y = self.index(r.a[1], i), self.index(r.a[2], i)
            v = x if x is y else mk('phi', r.a[0], x, y)
        elif r.op == 'conj':
            v = self.conj(self.index(r.a[0], i))
        elif r.op in ('real', 'imag'):
            v = self.realpart(self.index(r.a[0], i), r.op)
        elif r.op == 'abs':
            v = self.abs_(self.index(r.a[0], i))
        elif revflags(i):
            v = flip2(r, *revflags(i))
        elif entry(r, i) is not None:
            v = entry(r, i)
        elif r.op == 'mm' and len(r.a) == 2 and i.op == 'tuple' and all(x.op == 'const' for x in i.a) and any(x.op == 'phi' for x in r.a):
            k = 0 if r.a[0].op == 'phi' else 1
            p = r.a[k]
            x, y = (self.index(self.matmul(*(r.a[:k] + (z,) + r.a[k + 1:])), i) for z in p.a[1:])
            v = x if x is y else mk('phi', p.a[0], x, y)
        else:
            v = idx(r, i)
            if v.op != 'idx':
                v = self(v) if v.op not in ('poly', 'mm', 'exp') else v
        if c == ONE:
            return v
        return poly({m: cmul(k, c) for m, k in aspoly(v).items()})

    def compare(self, op, x, y):
        from .terms import cmpop
        if op == 'In' and y.op == 'meth' and y.a[0] == 'keys' and not y.a[2]:
            return self.compare(op, x, y.a[1])
        if op in ('Lt', 'LtE'):
            d = add(x, neg(y)) if arith(x) and arith(y) else None
            if d is not None:
                if d.op == 'const' and isinstance(d.py, (int, float)):
                    return TRUE if (d.py < 0 or (op == 'LtE' and d.py == 0)) else FALSE
                # scale to a leading coefficient of magnitude one
                p = aspoly(d)
                m0 = min((m for m in p if m), key=lambda m: tuple((okey(z), str(e)) for z, e in m))
                c = p[m0]
                if c[1] == 0:
                    s = abs(c[0])
                    d = poly({m: cmul(v, (1 / s, Fraction(0))) for m, v in p.items()})
                # canonical sign: a < b is kept, not (b <= a)
                if c[1] == 0 and c[0] < 0:      # d < 0  <=>  not (-d <= 0)
                    return mk('not', mk('cmp', 'LtE' if op == 'Lt' else 'Lt', neg(d), const(0)))
                return mk('cmp', op, d, const(0))
        if op == 'Eq' and arith(x) and arith(y):
            if x.op == 'const' and y.op == 'const':
                return cmpop(op, x, y)
            if x is y:
                return TRUE
            for u, v in ((x, y), (y, x)):
                if u.op == 'abs' and v.op == 'const' and v.py == 0:
                    return self.compare('Eq', u.a[0], const(0))
                # parity of a whole number: odd is "not even"
                if v is const(1) and u.op == 'bin' and u.a[0] == 'Mod' and u.a[2] is const(2):
                    return mk('not', self.compare('Eq', u, const(0)))
            a, b = sorted((x, y), key=okey)
            return mk('cmp', 'Eq', a, b)
        if op in ('Eq', 'Is'):
            r = cmpop(op, x, y)
            if r.op == 'cmp':
                a, b = sorted((r.a[1], r.a[2]), key=okey)
                return mk('cmp', r.a[0], a, b)
            return r
        r = cmpop(op, x, y)
        return r if r.op != 'cmp' else mk('cmp', r.a[0], r.a[1], r.a[2])

    # -------------------------------------------------------------- calls
    def methterm(self, t):
        name, recv, av, kv = t.a
        if name in ('copy', 'tolist', 'item') and not av:
            return self(recv)
        if name == 'astype' and av:
            x = self(recv)
            d = self(av[0])
            if d.op == 'ext' and d.a[0] in ('float', 'complex', 'numpy.float64', 'numpy.complex128'):
                return x
            return mk('meth', 'astype', x, (d,), ())
        if name == 'dot' and len(av) == 1:
            return self.matmul(self(recv), self(av[0]))
        if name in METHFN:
            if name in ('reshape', 'transpose') and len(av) != 1:
                av = (mk('tuple', *av),) if av else ()
            return self.callterm(mk('call', METHFN[name], (recv,) + tuple(av), kv))
        return mk('meth', name, self(recv), self.args(av), tuple((k, self(v)) for k, v in kv))

    def callterm(self, t):
        fn = t.a[0]
        if isinstance(fn, T):
            if fn.op == 'ext':
                fn = fn.a[0]
            else:
                return self.generic(t)
        if fn.startswith('scipy.ndimage.interpolation.') or fn.startswith('scipy.ndimage.filters.'):
            fn = 'scipy.ndimage.' + fn.split('.')[-1]
        fn = ALIAS.get(fn, fn)
        av = [self(x) for x in t.a[1]]
        kv = [(k, self(v)) for k, v in t.a[2]]
        n = len(av)
        if fn in IDENT and n >= 1:
            if not (av[0].op in ('list', 'tuple', 'dict', 'set')):
                return av[0]
            return mk('call', 'numpy.array', (mk('tuple', *av[0].a) if av[0].op == 'list' else av[0],), ())
        if fn == 'mm' and n == 2:
            return self.matmul(*av)
        if fn == 'numpy.linalg.multi_dot' and n == 1 and av[0].op in ('list', 'tuple'):
            return self.matmul(*av[0].a)
        if fn in ELEMENTWISE2 and n == 2 and not kv:
            return self.binary(ELEMENTWISE2[fn], av[0], av[1])
        if n == 1 and not kv:
            x = av[0]
            if fn == 'numpy.negative':
                return neg(x)
            if fn == 'numpy.square':
                return self.power(x, const(2))
            if fn == 'numpy.sqrt':
                return self.power(x, const(0.5))
            if fn == 'numpy.reciprocal':
                return self.binary('Div', const(1), x)
            if fn == 'numpy.exp':
                p = aspoly(x)
                return const(1) if not p else mk('exp', x)
            if fn == 'numpy.conj':
                return self.conj(x)
            if fn == 'numpy.abs':
                return self.abs_(x)
            if fn in ('numpy.real', 'numpy.imag'):
                return self.realpart(x, fn[6:])
            if fn == 'numpy.transpose':
                return self.transpose(x)
            if fn in ('numpy.fft.fft2', 'numpy.fft.ifft2', 'numpy.fft.fftshift', 'numpy.fft.ifftshift', 'numpy.sum',
                      'numpy.squeeze', 'numpy.mean', 'numpy.cumsum', 'numpy.ravel'):
                c, r = split_coef(x)
                v = mk('call', fn, (r,), ())
                return poly({m: cmul(k, c) for m, k in aspoly(v).items()})
            if fn in ('numpy.rad2deg', 'numpy.degrees', 'math.degrees'):
                return mul(x, self.binary('Div', const(180), mk('ext', 'numpy.pi')))
            if fn in ('numpy.deg2rad', 'numpy.radians', 'math.radians'):
                return mul(x, self.binary('Div', mk('ext', 'numpy.pi'), const(180)))
            if fn == 'int' and (x.op == 'call' and x.a[0] in ('int', 'len', 'falco.util.ceil_even', 'falco.util.ceil_odd') or x.op == 'attr' and x.a[1] in SIZES):
                return x
            if fn == 'len':
                return self.aattr(x, 'len')
        if fn in ('numpy.flip', 'numpy.flipud', 'numpy.fliplr', 'numpy.rot90') and n >= 1:
            kd = dict(kv)
            x = av[0]
            fl = None
            if fn == 'numpy.flipud':
                fl = (True, False)
            elif fn == 'numpy.fliplr':
                fl = (False, True)
            elif fn == 'numpy.flip':
                ax = kd.get('axis', av[1] if n > 1 else NONE)
                fl = {0: (True, False), 1: (False, True), None: (True, True)}.get(ax.py if ax.op == 'const' else 'x')
                if ax.op == 'tuple' and len(ax.a) == 2:
                    fl = (True, True)
            elif fn == 'numpy.rot90':
                k = kd.get('k', av[1] if n > 1 else const(1))
                if k.op == 'const' and isinstance(k.py, int) and k.py % 2 == 0 and 'axes' not in kd:
                    fl = (True, True) if k.py % 4 else (False, False)
                elif k.op == 'const' and isinstance(k.py, int) and 'axes' not in kd:
                    x = self.transpose(x)
                    fl = (True, False) if k.py % 4 == 1 else (False, True)
            if fl is not None:
                c, r = split_coef(x)
                return poly({m: cmul(k2, c) for m, k2 in aspoly(flip2(r, *fl)).items()})
        if fn == 'numpy.roll' and n >= 1:
            kd = dict(kv)
            sh = kd.get('shift', av[1] if n > 1 else None)
            ax = kd.get('axis', av[2] if n > 2 else None)
            if sh is not None and ax is not None:
                shs = sh.a if sh.op in ('tuple', 'list') else (sh,)
                axs = ax.a if ax.op in ('tuple', 'list') else (ax,)
                if len(shs) == 1 and len(axs) > 1:
                    shs = shs * len(axs)
                if len(shs) == len(axs) and all(z.op == 'const' and z.py in (0, 1) for z in axs):
                    c, r = split_coef(av[0])
                    by = [const(0), const(0)]
                    for z, w in zip(axs, shs):
                        by[z.py] = add(by[z.py], w)
                    if r.op == 'roll2':
                        by = [add(by[0], r.a[1]), add(by[1], r.a[2])]
                        r = r.a[0]
                    v = r if by == [const(0), const(0)] else mk('roll2', r, *by)
                    return poly({m: cmul(k2, c) for m, k2 in aspoly(v).items()})
        if fn == 'numpy.shape' and n == 1:
            return self.aattr(av[0], 'shape')
        if fn == 'numpy.size' and n == 1:
            return self.aattr(av[0], 'size')
        if fn == 'numpy.outer' and n == 2 and not kv:
            s = mk('slice', NONE, NONE, NONE)
            return mul(self.index(av[0], mk('tuple', s, NONE)), self.index(av[1], mk('tuple', NONE, s)))
        if fn == 'hasattr':
            return self.decide(mk('call', 'hasattr', tuple(av), ()))
        # positional arguments by name
        sig = _SIGS.get(fn)
        names = sig[0] if sig and sig[0] else SIGS2.get(fn)
        out = []
        if names and n <= len(names) and '**' not in [k for k, _ in kv]:
            out = list(zip(names, av))
        else:
            out = [('%03d' % i, x) for i, x in enumerate(av)]
        out += kv
        res = []
        for k, v in out:
            if k == 'dtype' and v.op == 'ext' and v.a[0] in ('float', 'numpy.float64', 'numpy.double'):
                continue
            if k == 'dtype' and v.op == 'ext' and v.a[0] in ('numpy.complex128',):
                v = mk('ext', 'complex')
            if k in ('shape', 'axis', 'axes', 'shift', '000') and v.op == 'list':
                v = mk('tuple', *v.a)
            if k == 'shape' and v.op == 'tuple' and len(v.a) == 1:
                v = v.a[0]
            if v is NONE and k in ('axis', 'norm', 'dtype', 'axes', 's'):
                continue
            res.append((k, v))
        res.sort(key=lambda kv_: kv_[0])
        if len(res) == 1 and sig and res[0][0] == names[0] if names else False:
            return self.pull(fn, res[0][1])
        return mk('call', fn, (), tuple(res))

    def pull(self, fn, x):
        return mk('call', fn, (x,), ())

    # -------------------------------------------------------------- loops
    def loop(self, t):
        bound, iv, init, body = t.a
        own = mk('mu', iv.a[1], 'self', 0, 0, '')
        b = self(body)
        i = self(init)
        nb = self(bound)
        p = aspoly(b)
        key = ((own, Fraction(1)),)
        if p.get(key) == ONE:
            rest = dict(p)
            del rest[key]
            r = poly(rest)
            if not contains(r, own):
                terms = {}
                for m, c in rest.items():
                    s = mk('Sum', nb, mk('iv', nb, iv.a[1]), poly({m: ONE}))
                    terms[((s, Fraction(1)),)] = c
                return poly(padd(aspoly(i), terms))
        if b.op == 'phi' and not contains(b.a[0], own):
            # conditional accumulation: x = x + f if c else x
            one = self.loop_phi(b, own, nb, iv, i)
            if one is not None:
                return one
        return mk('loop', nb, mk('iv', nb, iv.a[1]), i, b)

    def rec(self, t):
        """A system of recurrences, its variables in an order that does not depend on their names."""
        from .terms import subst
        bound, iv, c, inits, bodies = t.a
        depth = iv.a[1]
        mus = [mk('mu', depth, 'sys', j, 0, '') for j in range(len(inits))]
        if bound.op != 'loopwhile' and c is NONE:
            # variables that a branch leaves alone, and those that the first one does not use
            bodies = [self(b) for b in bodies]
            for _ in range(len(mus)):
                still = {m: i for m, i, b in zip(mus[1:], inits[1:], bodies[1:]) if b is m}
                if not still:
                    break
                bodies = [self(subst(b, still)) if b not in still else b for b in bodies]
                keep = [0] + [j for j in range(1, len(mus)) if mus[j] not in still]
                mus, inits, bodies = [mus[j] for j in keep], [inits[j] for j in keep], [bodies[j] for j in keep]
            used, todo = {mus[0]}, [0]
            while todo:
                b = bodies[todo.pop()]
                for j, m in enumerate(mus):
                    if m not in used and contains(b, m):
                        used.add(m)
                        todo.append(j)
            keep = [j for j, m in enumerate(mus) if m in used]
            old = [mus[j] for j in keep]
            if len(old) == 1:
                return self.loop(mk('loop', bound, iv, inits[0], subst(bodies[0], {old[0]: mk('mu', depth, 'self', 0, 0, '')})))
            mus = [mk('mu', depth, 'sys', j, 0, '') for j in range(len(old))]
            to = dict(zip(old, mus))
            inits, bodies = [inits[j] for j in keep], [subst(bodies[j], to) for j in keep]
        inits = [self(x) for x in inits]
        nb = self(bound)
        used = [any(contains(b, m) for b in bodies) for m in mus]
        if nb.op != 'loopwhile':
            inits = [i if u else NONE for i, u in zip(inits, used)]
        names = ['%s|' % okey(i) for i in inits]
        if len(mus) > 1:
            names[0] = 'me|' + names[0]
            for _ in range(len(mus)):
                to = {m: mk('ext', 'rec:' + n) for m, n in zip(mus, names)}
                names = [hashlib.sha1((n + '|' + okey(self(subst(b, to)))).encode()).hexdigest()[:16] for n, b in zip(names, bodies)]
        order = [0] + sorted(range(1, len(mus)), key=lambda j: names[j])
        to = {mus[j]: mus[k] for k, j in enumerate(order)}
        out = [self(subst(bodies[j], to)) for j in order]
        cc = self.cond(subst(c, to)) if c is not NONE else NONE
        return mk('rec', nb, mk('iv', nb, depth), cc, tuple(inits[j] for j in order), tuple(out))

    def loop_phi(self, b, own, nb, iv, i):
        out = {}
        d = add(b.a[1], neg(own)), add(b.a[2], neg(own))
        if contains(d[0], own) or contains(d[1], own):
            return None
        x = mk('phi', b.a[0], d[0], d[1])
        s = mk('Sum', nb, mk('iv', nb, iv.a[1]), x)
        return add(i, s)


def revflags(i):
    """(rows reversed, columns reversed) of a [::-1, ::-1] style index."""
    its = i.a if i.op == 'tuple' else (i,)
    if not 1 <= len(its) <= 2:
        return None
    fl = []
    for s in its:
        if s.op != 'slice' or s.a[0] is not NONE or s.a[1] is not NONE:
            return None
        if s.a[2] is const(-1):
            fl.append(True)
        elif s.a[2] is NONE or s.a[2] is const(1):
            fl.append(False)
        else:
            return None
    if not any(fl):
        return None
    return tuple(fl + [False] * (2 - len(fl)))


def litrows(t):
    """Rows of a two-dimensional array written out element by element."""
    if t.op == 'call' and t.a[0] == 'numpy.array' and len(t.a[1]) == 1 and t.a[1][0].op in ('tuple', 'list'):
        rows = t.a[1][0].a
        if rows and all(isinstance(x, T) and x.op in ('tuple', 'list') and all(isinstance(y, T) and y.op not in ('tuple', 'list') for y in x.a) for x in rows) and \
                len({len(x.a) for x in rows}) == 1:
            return [list(x.a) for x in rows]
    return None


def entry(r, i):
    """Element of a written-out matrix or of a product of two of them."""
    if i.op != 'tuple' or len(i.a) != 2 or not all(x.op == 'const' and isinstance(x.py, int) and not isinstance(x.py, bool) for x in i.a):
        return None
    j, k = i.a[0].py, i.a[1].py
    if r.op == 'mm' and len(r.a) == 2:
        a, b = litrows(r.a[0]), litrows(r.a[1])
        if a is None or b is None or len(a[0]) != len(b) or not (-len(a) <= j < len(a)) or not (-len(b[0]) <= k < len(b[0])):
            return None
        s = const(0)
        for u, row in zip(a[j], b):
            s = add(s, mul(u, row[k]))
        return s
    a = litrows(r)
    if a is None or not (-len(a) <= j < len(a)) or not (-len(a[0]) <= k < len(a[0])):
        return None
    return a[j][k]


def flip2(x, r, c):
    if x.op == 'flip2':
        x, r, c = x.a[0], bool(x.a[1]) != r, bool(x.a[2]) != c
    if not r and not c:
        return x
    return mk('flip2', x, int(r), int(c))


def contains(t, x):
    return any(y is x for y in deepwalk(t))


def deepwalk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x.n in seen:
            continue
        seen.add(x.n)
        yield x
        stack.extend(x.a)


def deepkids(t):
    """The terms directly inside t."""
    stack, out = list(t.a), []
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T):
            out.append(x)
    return out


def newaxis(x):
    if x.op == 'const' and x.py is None:
        return 'n'
    if x.op == 'ext' and x.a[0] == 'numpy.newaxis':
        return 'n'
    if x.op == 'slice' and all(y is NONE for y in x.a):
        return 's'
    return '?'


def seqlike(t):
    return t.op in ('list', 'tuple', 'fstr', 'fmt') or (t.op == 'const' and isinstance(t.py, (str, bytes)))


def arith(t):
    return not (t.op == 'const' and not isinstance(t.py, (int, float))) and t.op not in ('list', 'tuple', 'dict', 'fstr')


def strkey(c):
    """(subject, value) of a comparison with a string."""
    if c.op == 'cieq':
        return c.a[0], ('ci', c.a[1])
    if c.op == 'cmp' and c.a[0] == 'Eq':
        for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if y.op == 'const' and isinstance(y.py, (str, int, float)) and not isinstance(y.py, bool):
                return x, ('cs', y.py)
    return None


def boolean(t):
    return t in (TRUE, FALSE) or t.op in ('cmp', 'cieq', 'not', 'hasattr') or (t.op == 'and' and all(boolean(x) for x in t.a)) or \
        (t.op == 'phi' and boolean(t.a[1]) and boolean(t.a[2])) or (t.op == 'call' and t.a[0] in ('hasattr', 'isinstance', 'callable'))


def compatible(a, b):
    if a == b:
        return True
    if a[0] == 'ci' or b[0] == 'ci':
        x, y = a[1], b[1]
        if not (isinstance(x, str) and isinstance(y, str)):
            return False
        return x.lower() == y.lower()
    return False


def conds_of(t):
    out = {}
    for x in deepwalk(t):
        if x.op == 'phi':
            for c in leaves(x.a[0]):
                out[c] = out.get(c, 0) + 1
    return out


def leaves(c):
    if c.op == 'not':
        yield from leaves(c.a[0])
    elif c.op == 'and':
        for x in c.a:
            yield from leaves(x)
    elif c.op == 'phi':
        for x in c.a:
            yield from leaves(x)
    elif c.op != 'const':
        yield c


def symbols(t):
    """Names of the operators and functions a canonical term uses, and whether it has left the decidable fragment."""
    out = set()
    opaque = None
    for x in deepwalk(t):
        if x.op == 'call':
            out.add(x.a[0] if isinstance(x.a[0], str) else x.a[0].op)
        elif x.op == 'meth':
            out.add('.' + x.a[0])
        elif x.op in ('mm', 'conj', 'exp', 'abs', 'real', 'imag', 'tr', 'Sum', 'poly', 'phi', 'idx', 'flip2', 'attr', 'param', 'const', 'iv', 'slice', 'tuple', 'cmp', 'cieq', 'not', 'and', 'ext',
                      'func', 'glob', 'aattr', 'snap', 'mod', 'class', 'eff', 'vpath', 'vp', 'obj', 'with'):
            if x.op == 'ext' and isinstance(x.a[0], str) and ':only!' in x.a[0]:
                opaque = opaque or 'mu'
        elif x.op == 'bin':
            out.add(x.a[1 - 1])
        elif x.op == 'mu' and x.a[1] in ('self', 'sys'):
            pass
        elif x.op in OPAQUE:
            opaque = opaque or x.op
        elif x.op in ('list', 'dict'):
            out.add(x.op + 'lit')
        else:
            out.add(x.op)
    return out, opaque


class Verdict:
    def __init__(self, v, why='', env=None, left=None, right=None):
        self.v, self.why, self.env, self.left, self.right = v, why, env or {}, left, right


LIMIT = float(os.environ.get('VERIF_COMPARE_SECONDS', '45'))      # per value compared


def compare(code, spec, facts=None, budget=3000, kill=None, scalars=(), vacuous=()):
    """Compare the value of the code with the value of the specification."""
    state = {'n': 0}
    limit = time.process_time() + LIMIT
    facts = dict(facts or {})

    A, B = set(conds_of(Norm(facts)(code))), set(conds_of(Norm(facts)(spec)))

    def related(env):
        """A condition of the code and another one of the reference that may depend on each other in a way not modelled here."""
        for c1 in env:
            if c1 in A and c1 not in B:
                for c2 in env:
                    if c2 in B and c2 not in A and not comparable(c1, c2) and atoms_of(c1) & atoms_of(c2):
                        return '%s / %s' % (pretty(c1)[:60], pretty(c2)[:60])
        return None

    def shared():
        if 'shared' not in state:
            state['shared'] = symbols(Norm(facts)(code0))[0] & symbols(Norm(facts)(spec0))[0]
        return state['shared']
    code0, spec0 = code, spec
    lemmas = {}

    def lemma(x, y):
        """Two corresponding sub-terms have the same value in every environment."""
        k = x, y
        if k not in lemmas:
            lemmas[k] = False
            if len(set(conds_of(x)) | set(conds_of(y))) > 7:
                return False
            state['cap'] = state['n'] + 80
            lemmas[k] = rec(dict(facts), 1, x, y).v == EQUAL
            del state['cap']
        return lemmas[k]

    def rec(env, depth, code=code, spec=spec, split=True):
        state['n'] += 1
        if state['n'] > state.get('cap', budget) or depth > 26 or time.process_time() > limit:
            if 'cap' not in state:
                state['n'] = budget
            return Verdict(UNKNOWN, 'too many branch combinations')
        nz = Norm(env, scalars=scalars)
        a, b = nz(code), nz(spec)
        if a is b:
            return Verdict(EQUAL)
        if split and 'cap' not in state:
            # sub-terms that differ in the nesting of their branches only
            for _ in range(6):
                eq = {x: y for x, y in mindiffs(a, b) if x is not y and (x is not a or y is not b) and x.op == y.op == 'phi' and lemma(x, y)}
                if not eq:
                    break
                nl = Norm(env, scalars=scalars)
                nl.sub.update(eq)
                a = nl(a)
                if a is b:
                    return Verdict(EQUAL)
                code, spec = a, b
        if env and any(all(nz.cond(c) is (TRUE if pol else FALSE) for c, pol in pc) for pc in vacuous):
            return Verdict(EQUAL)       # one of the two raises instead of returning
        if split:
            pairs = parts(a, b)
            if pairs:
                # the same operation on several operands: operand by operand, so that their branches do not multiply
                bad = None
                for x, y in pairs:
                    r = rec(env, depth + 1, x, y)
                    if r.v != EQUAL:
                        bad = r
                        break
                if bad is None:
                    return Verdict(EQUAL)
                if bad.env and bad.v == DIFFERENT and set(bad.env) - set(env):
                    r = rec(dict(bad.env), depth + 1, code, spec, False)
                    if r.v == DIFFERENT:
                        return r
        ca, cb = conds_of(a), conds_of(b)
        cs = set(ca) | set(cb)
        cs = [c for c in cs if c not in env]
        if not cs:
            r = leaf(a, b, env, shared())
            if r.v == DIFFERENT:
                rel = related(env)
                if rel:
                    return Verdict(UNKNOWN, 'conditions spelled differently: ' + rel, env, r.left, r.right)
            return r
        # conditions at the innermost places where the two sides part, most shared first
        count = {}
        pairs = mindiffs(a, b)
        for x in [z for pr in pairs for z in pr]:
            if x.op == 'phi':
                for c in leaves(x.a[0]):
                    if c not in env:
                        count[c] = count.get(c, 0) + 1
        if not count and env:
            # perhaps one of the two raises here: the branches that settle it
            for pc in vacuous:
                vals = [nz.cond(c) is (TRUE if pol else FALSE) or nz.cond(c) for c, pol in pc]
                if all(v is True or v.op != 'const' for v in vals):
                    for v in vals:
                        for c in leaves(v) if v is not True else ():
                            if c in cs:
                                count[c] = count.get(c, 0) + 1
        if not count:
            for x in [z for pr in pairs for z in pr]:
                for c in conds_of(x):
                    if c not in env:
                        count[c] = count.get(c, 0) + 1
        if not count:
            # the difference lies outside every branch: decide it where it is, under the branches that lead to it
            count = {c: 0 for c in cs}
        c = min(count, key=lambda z: (-count[z], okey(z)))
        worst = Verdict(EQUAL)
        for v in (True, False):
            e2 = dict(env)
            e2[c] = v
            if (v and contradictory(e2, c)) or not consistent(e2):
                continue
            r = rec(e2, depth + 1, code, spec)
            if r.v == DIFFERENT:
                return r
            if r.v == UNKNOWN:
                worst = r
        return worst

    def probe():
        """Complete branch assignments, one at a time: finds a difference where enumerating all of them is out of reach."""
        rng = random.Random(20)
        end = time.process_time() + LIMIT / 2
        for k in range(60):
            env = dict(facts)
            for _ in range(200):
                if time.process_time() > end:
                    return None
                nz = Norm(env, scalars=scalars)
                a, b = nz(code), nz(spec)
                if a is b:
                    break
                cs = sorted((c for c in set(conds_of(a)) | set(conds_of(b)) if c not in env), key=okey)
                if not cs:
                    if any(all(nz.cond(c) is (TRUE if pol else FALSE) for c, pol in pc) for pc in vacuous):
                        break
                    r = leaf(a, b, env, shared())
                    if r.v == DIFFERENT and not related(env):
                        return r
                    break
                c = rng.choice(cs)
                v = rng.random() < 0.5 if k else False
                for w in (v, not v):
                    e2 = dict(env)
                    e2[c] = w
                    if not (w and contradictory(e2, c)) and consistent(e2):
                        env = e2
                        break
                else:
                    break
        return None

    r = rec(facts, 0)
    if r.v == UNKNOWN and r.why.startswith('too many'):
        return probe() or r
    return r


def bound(c):
    """(subject, op, number) of a comparison of a linear quantity with a number."""
    if c.op != 'cmp':
        return None
    op, x, y = c.a[0], c.a[1], c.a[2]
    if op == 'Eq':
        for u, v in ((x, y), (y, x)):
            if v.op == 'const' and isinstance(v.py, (int, float)) and u.op != 'const':
                return (u, 'Eq', Fraction(v.py).limit_denominator(10**9)) if v.py == v.py and abs(v.py) != float('inf') else None
        if not (arith(x) and arith(y)):
            return None
        x, y = add(x, neg(y)), const(0)
    elif op not in ('Lt', 'LtE') or y is not const(0):
        return None
    p = dict(aspoly(x))
    k = p.pop((), ZERO)
    if not p or k[1] != 0:
        return None
    m0 = min(p, key=lambda m: tuple((okey(z), str(e)) for z, e in m))
    c0 = p[m0]
    if c0[1] != 0:
        return None
    u = poly({m: cmul(v, (1 / c0[0], Fraction(0))) for m, v in p.items()})
    v = -k[0] / c0[0]
    if c0[0] > 0 or op == 'Eq':
        return u, op, v                     # u < v
    return u, {'Lt': 'Gt', 'LtE': 'GtE'}[op], v


def consistent(env):
    """No interval of numbers is empty under the assumed comparisons."""
    by = {}
    only, has = {}, []
    gets = {}
    for c, v in env.items():
        g = defget(c)
        if g:
            gets.setdefault(g[0], []).append((g[1], v))
        b = bound(c)
        if b is None:
            q = quant(c)
            if q and q[1] == 'other' and not v:
                only.setdefault(q[0], set()).add(q[2])      # every element is this number
            elif q and q[1] == 'has' and v:
                has.append(q)
            continue
        u, op, k = b
        if not v:
            if op == 'Eq':
                by.setdefault(u, []).append(('Ne', k))
                continue
            op = {'Lt': 'GtE', 'LtE': 'Gt', 'Gt': 'LtE', 'GtE': 'Lt'}[op]
        by.setdefault(u, []).append((op, k))
    for ms in gets.values():
        if len({v for _, v in ms}) > 1 and any(v is not m for m, v in ms):
            return False        # tests of one entry that differ in the default only part when the entry is absent
    if only and (any(len(ks) > 1 for ks in only.values()) or any(k not in only.get(u, (k,)) for u, _, k in has)):
        return False
    for u, cs in by.items():
        lo, lostrict, hi, histrict = None, False, None, False
        for op, k in cs:
            if op in ('Eq', 'GtE', 'Gt') and (lo is None or k > lo or (k == lo and op == 'Gt')):
                lo, lostrict = k, op == 'Gt'
            if op in ('Eq', 'LtE', 'Lt') and (hi is None or k < hi or (k == hi and op == 'Lt')):
                hi, histrict = k, op == 'Lt'
        if lo is not None and hi is not None:
            if lo > hi or (lo == hi and (lostrict or histrict)):
                return False
            if lo == hi and ('Ne', lo) in cs:
                return False
    return True


DEFGET = {}


def defget(c):
    """(condition without the default of the one optional entry that it reads, truth when the entry is absent)."""
    r = DEFGET.get(c.n, 0)
    if r != 0:
        return r
    found, seen = set(), set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T) and x.n not in seen:
            seen.add(x.n)
            if x.op == 'meth' and x.a[0] == 'get' and len(x.a[2]) == 2 and x.a[2][0].op == 'const' and x.a[2][1].op == 'const':
                found.add(x)
            go(x.a)
    go((c,))
    r = None
    if len(found) == 1:
        x = found.pop()
        hole = mk('meth', 'get', x.a[1], (x.a[2][0], mk('ext', 'some default')), x.a[3])

        def put(t, y, memo):
            if t is x:
                return y
            z = memo.get(t.n)
            if z is None:
                z = memo[t.n] = rebuild(t, lambda u: put(u, y, memo))
            return z
        m = put(c, x.a[2][1], {})
        m = Norm({}).cond(m) if m.op != 'const' else (TRUE if m.py else FALSE)
        if m in (TRUE, FALSE):
            r = put(c, hole, {}), m is TRUE
    DEFGET[c.n] = r
    return r


def quant(c):
    """(array, 'has' or 'other', number): some element equals, or some element differs from, a number."""
    if c.op == 'cmp' and c.a[0] == 'In' and c.a[1].op == 'const':
        return c.a[2], 'has', c.a[1].py
    if c.op == 'call' and c.a[0] in ('any', 'numpy.any') and len(c.a[1]) + len(c.a[2]) == 1:
        x = c.a[1][0] if c.a[1] else c.a[2][0][1]
        neg = x.op == 'not'
        x = x.a[0] if neg else x
        if x.op == 'cmp' and x.a[0] in ('Eq', 'NotEq'):
            for p, q in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if q.op == 'const':
                    return p, 'other' if neg ^ (x.a[0] == 'NotEq') else 'has', q.py
    return None


def comparable(c1, c2):
    q1, q2 = quant(c1), quant(c2)
    if q1 and q2 and q1[0] is q2[0]:
        return True
    g1, g2 = defget(c1), defget(c2)
    if g1 and g2 and g1[0] is g2[0]:
        return True
    b1, b2 = bound(c1), bound(c2)
    if b1 is not None and b2 is not None and b1[0] is b2[0]:
        return True
    if b1 is not None and b2 is not None and b1[1:] == b2[1:] and blankidx(b1[0], {}) is blankidx(b2[0], {}):
        return True         # the same test of two elements of an array
    k1, k2 = strkey(c1), strkey(c2)
    return k1 is not None and k2 is not None and k1[0] is k2[0]


def blankidx(t, memo):
    r = memo.get(t.n)
    if r is None:
        if t.op == 'idx' and t.a[1].op != 'slice':
            r = mk('idx', blankidx(t.a[0], memo), mk('ext', 'some index'))
        else:
            r = rebuild(t, lambda x: blankidx(x, memo))
        memo[t.n] = r
    return r


def atoms_of(c):
    out = set()

    def go(x, d):
        if d > 40:
            return
        if x.op == 'attr' and x.a[0].op in ('attr', 'param', 'snap'):
            out.add(x)
            return
        if x.op in ('param', 'glob', 'mu', 'iv', 'attr', 'snap', 'obj', 'call'):
            out.add(x)
        for y in x.a:
            if isinstance(y, T):
                go(y, d + 1)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        go(z, d + 1)
                    elif isinstance(z, tuple) and len(z) == 2 and isinstance(z[1], T):
                        go(z[1], d + 1)
                    elif isinstance(z, tuple):
                        for w in z:
                            for q in (w if isinstance(w, tuple) else ()):
                                if isinstance(q, tuple) and q and isinstance(q[0], T):
                                    go(q[0], d + 1)
    go(c, 0)
    return out


def contradictory(env, c):
    k = strkey(c)
    if k is None:
        return False
    for c2, v in env.items():
        if v and c2 is not c:
            k2 = strkey(c2)
            if k2 is not None and k2[0] is k[0] and not compatible(k[1], k2[1]):
                return True
    return False


def first_diff(a, b):
    """A pair of corresponding sub-terms that differ, as deep as the two terms stay parallel."""
    for _ in range(200):
        if not (isinstance(a, T) and isinstance(b, T)) or a.op != b.op or len(a.a) != len(b.a) or a.op == 'poly':
            break
        nxt = None
        diffs = 0
        if a.op == 'phi' and a.a[0] is not b.a[0]:
            break
        for x, y in zip(a.a, b.a):
            if x is y or x == y:
                continue
            diffs += 1
            if isinstance(x, T) and isinstance(y, T):
                nxt = nxt or (x, y)
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                for p, q in zip(x, y):
                    if p is q or p == q:
                        continue
                    if isinstance(p, T) and isinstance(q, T):
                        nxt = nxt or (p, q)
                    elif isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q) == 2 and p[0] == q[0] and isinstance(p[1], T) and isinstance(q[1], T):
                        nxt = nxt or (p[1], q[1])
        if nxt is None:
            break
        a, b = nxt
    return [x for x in (a, b) if isinstance(x, T)]


def mindiffs(a, b, limit=40):
    """Pairs of corresponding sub-terms at which two canonical terms part."""
    out = []
    seen = set()

    def head(t):
        return t.op, t.a[0] if t.a and isinstance(t.a[0], str) else ''

    def go(x, y, d):
        if x is y or len(out) >= limit or (x.n, y.n) in seen:
            return
        seen.add((x.n, y.n))
        if d > 300:
            out.append((x, y))
            return
        if x.op == 'poly' or y.op == 'poly':
            px, py = aspoly(x), aspoly(y)
            dx = [m for m in px if px[m] != py.get(m)]
            dy = [m for m in py if py[m] != px.get(m)]
            ax, ay = {z for m in dx for z, e in m}, {z for m in dy for z, e in m}
            ux, uy = sorted(ax - ay, key=okey), sorted(ay - ax, key=okey)
            if len(ux) == len(uy) == 1 and len(dx) == len(dy):
                go(ux[0], uy[0], d + 1)
                return
            if len(ux) == len(uy) and ux and len(dx) == len(dy) and len({head(z) for z in ux}) == len(ux) and {head(z) for z in ux} == {head(z) for z in uy}:
                for z in ux:
                    go(z, next(w for w in uy if head(w) == head(z)), d + 1)
                return
            ph = [z for z in ux + uy if z.op == 'phi']
            if ph:
                for z in ph:
                    out.append((z, z))
                return
            out.append((x, y))
            return
        if x.op != y.op or len(x.a) != len(y.a) or (x.op == 'phi' and x.a[0] is not y.a[0]):
            out.append((x, y))
            return
        todo = []

        def kids(p, q, k):
            if p is q or p == q:
                return True
            if isinstance(p, T) and isinstance(q, T):
                todo.append((p, q))
                return True
            if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q) and k < 8:
                return all([kids(u, v, k + 1) for u, v in zip(p, q)])
            return False
        if not all([kids(p, q, 0) for p, q in zip(x.a, y.a)]) or not todo:
            out.append((x, y))
            return
        for p, q in todo:
            go(p, q, d + 1)
    go(a, b, 0)
    return out


def parts(a, b):
    """The pairs of differing operands below the first operation whose operands differ in more than one place."""
    for _ in range(200):
        if not (isinstance(a, T) and isinstance(b, T)) or a.op != b.op or len(a.a) != len(b.a) or a.op in ('poly', 'phi', 'Sum', 'comp', 'loop', 'mu'):
            return None
        ps = []

        def go(x, y, d):
            if x is y or x == y:
                return True
            if isinstance(x, T) and isinstance(y, T):
                ps.append((x, y))
                return True
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and d < 6:
                return all([go(p, q, d + 1) for p, q in zip(x, y)])
            return False
        if not all([go(x, y, 0) for x, y in zip(a.a, b.a)]) or not ps:
            return None
        if len(ps) > 1:
            return ps
        a, b = ps[0]
    return None


def deepatoms(t):
    return t.op != 'poly' or any(m for m in aspoly(t))


def wraps(x, y):
    """y applies to x a function that changes what it is applied to."""
    if y.op == 'call' and y.a[0] in CHANGING:
        ops = list(y.a[1]) + [v for k, v in y.a[2]]
        return ops and isinstance(ops[0], T) and any(o is x for o in ops) and not symbols(x)[1]
    if y.op == 'call' and y.a[0] in ('max', 'min', 'numpy.maximum', 'numpy.minimum'):
        ops = [o for o in list(y.a[1]) + [v for k, v in y.a[2]] if isinstance(o, T)]
        return len(ops) == 2 and any(o is x for o in ops) and any(o.op == 'const' or not deepatoms(o) for o in ops) and x.op not in ('len', 'iv', 'abs', 'const') and not symbols(x)[1]
    if y.op == 'upd' and y.a[0] is x:
        return not symbols(y)[1]
    return y.op in ('conj', 'exp') and y.a[0] is x and not symbols(x)[1]


CHANGING = {'numpy.diag', 'numpy.diagonal', 'numpy.flip', 'numpy.flipud', 'numpy.fliplr', 'numpy.rot90', 'numpy.diff', 'numpy.cumsum', 'numpy.log', 'numpy.log2',
            'numpy.log10', 'numpy.sin', 'numpy.cos', 'numpy.tan', 'numpy.roll', 'numpy.fft.fft2', 'numpy.fft.ifft2', 'numpy.fft.fftshift', 'numpy.fft.ifftshift',
            'numpy.linalg.inv', 'numpy.linalg.pinv', 'numpy.cumprod', 'numpy.sinc', 'numpy.radians', 'numpy.degrees'}


SIBLINGS = {}
for _fam in ('sin cos tan arcsin arccos arctan sinh cosh tanh exp log log2 log10 sqrt sinc', 'ones zeros', 'ones_like zeros_like', 'floor ceil', 'max min', 'maximum minimum',
             'argmax argmin', 'nanmax nanmin', 'sum prod max min mean std var median', 'nansum nanmean nanstd nanmedian', 'fft.fft2 fft.ifft2', 'fft.fftn fft.ifftn', 'fft.fft fft.ifft', 'any all',
             'flipud fliplr', 'vstack hstack', 'row_stack column_stack', 'logical_and logical_or logical_xor', 'cumsum cumprod', 'hanning hamming', 'triu tril',
             'radians degrees', 'deg2rad rad2deg'):
    for _n in _fam.split():
        SIBLINGS.setdefault('numpy.' + _n, set()).update('numpy.' + z for z in _fam.split() if z != _n)
SIBLINGS['max'], SIBLINGS['min'], SIBLINGS['any'], SIBLINGS['all'] = {'min'}, {'max'}, {'all'}, {'any'}


def siblings(x, y):
    """The same arguments given to two functions known to differ; or an argument at another place."""
    if x.op == y.op == 'call' and isinstance(x.a[0], str) and isinstance(y.a[0], str):
        if x.a[0] != y.a[0]:
            return y.a[0] in SIBLINGS.get(x.a[0], ()) and x.a[1:] == y.a[1:]
        ok = x.a[0] == 'hasattr'
        return ok and len(x.a[1]) == len(y.a[1]) == 2 and x.a[1][0] is y.a[1][1] and x.a[1][1] is y.a[1][0]
    return False


SOLID = {'numpy.' + z for z in 'sin cos tan exp log log2 log10 fft.fft2 fft.ifft2 fft.fftn fft.ifftn linalg.inv linalg.solve linalg.lstsq linalg.pinv cumsum cumprod sinc sort'.split()}


def location(x):
    return x.op in ('param', 'glob') or x.op == 'attr' and location(x.a[0])


CONTENT = [{}, {}]      # what the values carried by loops start from and become, of the code and of the reference


def unrelated(x, y, content):
    """x is a place of the caller that the value y does not depend on."""
    if not (x.op == 'attr' and location(x)) or location(y) or y.op in ('attr', 'const', 'call', 'meth', 'ext'):
        return False
    some, todo, done = False, [y], set()
    while todo:
        for z in deepwalk(todo.pop()):
            if z is x or z.op == 'ext' and isinstance(z.a[0], str) and 'cell:' in z.a[0]:
                return False
            if z.op == 'mu' and z not in done and z.a[1] not in ('self', 'sys'):
                if z not in content:
                    return False
                done.add(z)
                todo += list(content[z])
            elif z.op in OPAQUE and z.op != 'mu':
                return False
            some = some or location(z)
    return some


def stale(x, y):
    """One side uses the index of the current loop, the other what an earlier loop left behind."""
    if y.op != 'iv' or x.op != 'exit':
        return False
    mus = [z for z in walk(x) if z.op == 'mu']
    return bool(mus) and all(z.a[0] <= y.a[1] for z in mus)


def iscell(x):
    return x.op == 'ext' and isinstance(x.a[0], str) and x.a[0].startswith(('cell:', 'after:cell:'))


def leaf(a, b, env, shared=frozenset()):
    d = first_diff(a, b)
    if len(d) == 2:
        x, y = d
    else:
        x, y = a, b
    sa, oa = symbols(x)
    sb, ob = symbols(y)
    one = mindiffs(x, y)
    if len(one) == 1:
        p, q = one[0]
        if wraps(p, q) or wraps(q, p):
            return Verdict(DIFFERENT, '', env, p, q)
    for p, q in one:
        if siblings(p, q) or stale(p, q) or stale(q, p):
            return Verdict(DIFFERENT, '', env, p, q)
    if any(z.op == 'unk' and str(z.a[0]).startswith('name:') for z in deepwalk(x)) and not ob:
        return Verdict(DIFFERENT, '', env, x, y)        # a name that nothing defines
    if iscell(x) and iscell(y):
        return Verdict(DIFFERENT, '', env, x, y)        # an array that corresponds to another one of the reference
    if unrelated(x, y, CONTENT[1]) or unrelated(y, x, CONTENT[0]):
        return Verdict(DIFFERENT, '', env, x, y)        # left as it was, where a value is computed from others
    if oa or ob:
        return Verdict(UNKNOWN, 'not summarised: %s' % (oa or ob), env, x, y)
    if (sa < sb or sb < sa) and any(s in SOLID for s in sa ^ sb):
        return Verdict(DIFFERENT, '', env, x, y)        # an operation that nothing else stands for is missing on one side
    sall, _ = symbols(b)
    odd = {s for s in (sa ^ sb) if s in EXPRESSIBLE or s.startswith('.')}
    if odd <= shared & SHARABLE and (sa < sb or sb < sa) and not boolean(x) and not boolean(y):
        odd = None                  # both sides use these operators elsewhere: here one of them lacks the operation
    if odd:
        return Verdict(UNKNOWN, 'spelled with other operators: %s' % sorted(odd), env, x, y)
    new = {s for s in sa - sall if s not in VOC and not s.startswith('falco.')}
    if new:
        return Verdict(UNKNOWN, 'operators outside the vocabulary: %s' % sorted(new), env, x, y)
    return Verdict(DIFFERENT, '', env, x, y)


# operators whose absence on one side, where both sides use them elsewhere, is a difference
SHARABLE = {'numpy.logical_and', 'numpy.logical_or', 'numpy.logical_not', 'upd', 'numpy.where', 'numpy.maximum', 'numpy.minimum', 'numpy.clip', 'numpy.sin',
            'numpy.cos', 'numpy.tan', 'numpy.log', 'numpy.log10', 'numpy.sign', 'numpy.rot90', 'numpy.fliplr', 'numpy.flipud'}
VOC = {'numpy.fft.fftshift', 'numpy.fft.ifftshift', 'numpy.fft.fft2', 'numpy.fft.ifft2', 'numpy.sqrt', 'numpy.conj', 'numpy.abs'}


def show_env(env):
    from .terms import show
    return ', '.join('%s%s' % ('' if v else 'not ', show(c, 4)) for c, v in env.items())[:300]


def pretty(t, d=6):
    from .terms import show
    if not isinstance(t, T):
        return str(t)
    if t.op == 'poly' and d > 0:
        parts = []
        for m, c in t.a[0][:6]:
            cs = '' if c == ONE else ('-' if c == MINUS else ('%g' % float(c[0]) if c[1] == 0 else '(%g%+gj)' % (float(c[0]), float(c[1]))))
            parts.append('*'.join(([cs] if cs else []) + ['%s%s' % (pretty(x, d - 1), '' if e == 1 else '**%s' % e) for x, e in m]))
        return '(' + ' + '.join(parts) + (' + …' if len(t.a[0]) > 6 else '') + ')'
    if t.op in ('exp', 'abs', 'conj', 'real', 'imag', 'tr') and d > 0:
        return '%s(%s)' % (t.op, pretty(t.a[0], d - 1))
    if t.op == 'mm' and d > 0:
        return ' @ '.join(pretty(x, d - 1) for x in t.a)
    return show(t, d)

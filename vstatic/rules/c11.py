"""C11: an unsupported option value is rejected, never silently ignored."""
import ast

from .. import selftest
from . import c09, specbased

R1 = 'unsupported-options-refused'
R2 = 'each-name-its-own-behaviour'
R3 = 'names-compared-whole'


def words(n):
    return isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) >= 3 and n.value.replace('-', '').replace('_', '').isalnum()


def selects(spec):
    """The reference chooses between behaviours by the name of an option."""
    for n in ast.walk(spec.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            c = n.comparators[0]
            if isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and words(c):
                return True
            if isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(c, (ast.Tuple, ast.List, ast.Set)) and c.elts and all(words(x) for x in c.elts):
                return True
    return False


def partial(f):
    """Tests whether an option is a part of a name: `option in 'pixel'`."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Compare):
            for op, c in zip(n.ops, n.comparators):
                if isinstance(op, (ast.In, ast.NotIn)) and words(c) and not isinstance(n.left, ast.Constant):
                    yield n, c.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and words(n.func.value) and n.func.attr in ('startswith', 'endswith', 'find', 'count', '__contains__'):
            yield n, n.func.value.value


def run(ctx, rep):
    rep.rule(R1, 'the condition under which a function refuses its arguments and options equals the documented one')
    rep.rule(R2, 'the canonical value of every function that chooses by the name of an option equals its reference, for every name and for every other value')
    rep.rule(R3, 'an option is compared with a whole name, never tested for being a part of one')
    c09.all_guards(ctx, rep, R1)
    specbased.borrow(ctx, rep, R2, lambda q, s: selects(s))
    rep.floor('borrowed_references', 15)
    for f in [g for g in ctx.repo.analysed() if g.qual.startswith('falco.')]:
        bad = list(partial(f))
        rep.count('functions_searched')
        for n, w in bad:
            rep.bad(R3, '%s in %s' % (f.qual, w), '%s:%d' % (f.mod.rel, n.lineno), '%s accepts every part of the word "%s" (%s)' % (f.qual, w, ast.unparse(n)[:60]))
        if not bad:
            rep.ok(R3, f.qual)
    rep.floor('functions_searched', 200)
    selftest.exact(rep, 'C11', 'c11', {f.name for f in selftest.posfuncs('c11') if list(partial(f))})

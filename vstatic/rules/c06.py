"""C06: horizontal and vertical axes are never exchanged."""
import ast
import importlib
import re
from collections import Counter

from .. import specs
from ..interp import Budget
from ..norm import DIFFERENT, EQUAL, UNKNOWN, pretty, show_env
from . import specbased

R = 'axes-as-in-reference'
S = 'falco.setup.'


def outs(pre, *names):
    return tuple(pre + n for n in names)


KW = {
    S + 'compute_entrance_pupil_coordinates': {'outs': outs('mp.P2.', 'full.dx', 'compact.dx', 'compact.xsDL', 'compact.XsDL', 'compact.YsDL', 'full.xsDL', 'full.XsDL',
                                                            'full.YsDL') + outs('mp.P1.', 'compact.mask', 'compact.Narr', 'full.mask', 'full.Narr')
                                               + outs('mp.P3.', 'full.dx', 'compact.dx')},
    S + 'compute_apodizer_shape': {'outs': outs('mp.P3.', 'compact.mask', 'compact.Narr', 'full.mask', 'full.Narr')},
    S + 'compute_lyot_stop_coordinates': {'outs': outs('mp.P4.', 'full.dx', 'compact.dx', 'compact.xs', 'compact.ys')},
    S + 'falco_compute_fpm_coordinates': {'outs': outs('mp.F3.compact.', 'Nxi', 'Neta', 'dxi', 'deta', 'xis', 'etas', 'xisDL', 'etasDL')
                                          + outs('mp.F3.full.', 'Nxi', 'Neta', 'dxi', 'deta', 'xisDL', 'etasDL')},
    S + 'compute_Fend_resolution': {'outs': outs('mp.Fend.', 'dxi', 'deta', 'eval.dxi', 'eval.deta', 'lenslet.D', 'x_lenslet_phys', 'y_lenslet_phys')
                                    + outs('mp.F5.', 'dxi', 'deta')},
    S + 'falco_configure_dark_hole_region': {'outs': outs('mp.Fend.', 'corr.maskBool', 'xisDL', 'etasDL', 'Nxi', 'Neta', 'RHOS', 'eval.Nxi', 'eval.Neta', 'eval.xisDL',
                                                          'eval.etasDL', 'eval.RHOS', 'score.maskBool', 'corr.Npix', 'score.Npix', 'scoreInCorr', 'xiOffset',
                                                          'etaOffset', 'clockAngDeg', 'shape')},
}
MODULES = ('c06', 'c04', 'c13', 'c14', 'c15', 'c16', 'c17', 'c20', 'c21', 'c22', 'c23', 'c25')

# names that belong to one axis: horizontal first
H = re.compile(r"^(n|d|N|n_)?(xi|XI|x|X)([sSc]|DL|sDL|FOV|Off\w*|off\w*|Shear|shear|_?[cC]en\w*|Vec|_\w+|Stretch|Tilt\w*|tilt\w*|[0-9]+)*$|^(xi|x)[A-Z_]\w*$|^Nxi\w*$|^dxi\w*$|^XTILT$|^XIS$|^XS$|^xis\w*$|^projx$|^invprojx$|^fx$|^ixx$|^Nx$")
V = re.compile(r"^(n|d|N|n_)?(eta|ETA|y|Y)([sSc]|DL|sDL|FOV|Off\w*|off\w*|Shear|shear|_?[cC]en\w*|Vec|_\w+|Stretch|Tilt\w*|tilt\w*|[0-9]+)*$|^(eta|y)[A-Z_]\w*$|^Neta\w*$|^deta\w*$|^YTILT$|^ETAS$|^YS$|^etas\w*$|^projy$|^invprojy$|^fy$|^iyy$|^Ny$")
TOKEN = re.compile(r"shape\[[01]\]|axis=[01]|-?axis=-[12]|[A-Za-z_][A-Za-z_0-9]*|\d+(?:\.\d+)?|\S")
SIDES = {'shape[0]': 'v', 'shape[1]': 'h', 'axis=0': 'v', 'axis=1': 'h', 'cos': 'h', 'sin': 'v', 'cosd': 'h', 'sind': 'v', 'transpose': 't', 'T': 't', 'swapaxes': 't',
         'fliplr': 'h', 'flipud': 'v', 'rot90': 't', 'left': 'h', 'right': 'h', 'top': 'v', 'bottom': 'v', 'meshgrid': 't', 'cart2pol': 't', 'arctan2': 't'}


def side(tok):
    if tok in SIDES:
        return SIDES[tok]
    if H.match(tok):
        return 'h'
    if V.match(tok):
        return 'v'
    return None


def tokens(t):
    return TOKEN.findall(pretty(t)) if t is not None else []


def neutral(tok):
    s = side(tok)
    if s not in ('h', 'v'):
        return tok
    if tok in SIDES:
        return {'shape[0]': 'shape', 'shape[1]': 'shape', 'axis=0': 'axis', 'axis=1': 'axis'}.get(tok, 'trig' if tok[:3] in ('cos', 'sin') else 'flip')
    return re.sub(r'xi|XI|eta|ETA|x|X|y|Y', 'a', tok, count=1)


def axial(left, right):
    """The two differ in what they take from each axis, not only in something else."""
    a, b = tokens(left), tokens(right)
    if not a or not b:
        # a term that one of them lacks altogether
        return any(side(t) in ('h', 'v') for t in a + b)
    ca, cb = Counter(side(t) for t in a if side(t)), Counter(side(t) for t in b if side(t))
    if ca != cb:
        return True
    if sorted(map(neutral, a)) == sorted(map(neutral, b)):
        return a != b and any(side(t) for t in a)
    return Counter(t for t in a if side(t)) != Counter(t for t in b if side(t))


def verdicts(ctx, code, spec, kw):
    if kw.get('orch'):
        try:
            p, vs = specs.orchestrate(ctx, code, spec, kw.get('outs', ('return',)), kw.get('inline', ()), kw.get('assume'))
        except Budget:
            return None
        return vs
    k = {x: kw[x] for x in ('outs', 'inline', 'assume', 'facts') if x in kw}
    return [(o, v) for o, v, err in specs.compare_function(ctx, code, spec, refuses=False, **k) if v is not None]


def with_helpers(spec):
    """The reference and the helpers of its module that it calls."""
    defs = {n.name: n for n in spec.mod.tree.body if isinstance(n, ast.FunctionDef)}
    todo, seen = [spec.node], []
    while todo:
        f = todo.pop()
        seen.append(f)
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in defs and defs[n.id] not in seen and defs[n.id] not in todo:
                todo.append(defs[n.id])
    return seen


def concerns(spec):
    """The reference deals with both axes."""
    names = set()
    for f in with_helpers(spec):
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute):
                names.add(n.attr)
            elif isinstance(n, ast.Name):
                names.add(n.id)
            elif isinstance(n, (ast.arg, ast.keyword)) and n.arg:
                names.add(n.arg)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                names.add(n.value)
    s = {side(n) for n in names}
    return 'h' in s and 'v' in s or bool(names & {'shape', 'meshgrid', 'transpose'})


def decide(ctx, rep, qual, spec, kw):
    code = ctx.repo.funcs.get(qual)
    if code is None:
        rep.undecided_at(R, qual, 'the function no longer exists under this name')
        return
    vs = verdicts(ctx, code, spec, kw)
    rep.count('reference_comparisons')
    if vs is None:
        rep.undecided_at(R, qual, 'too large to analyse')
        return
    seen = set()
    for o, v in vs:
        name = qual if o == 'return' else '%s -> %s' % (qual, o)
        if v.v == EQUAL:
            rep.ok(R, name)
            rep.count('values_with_axes_as_in_reference')
        elif v.v == UNKNOWN:
            rep.undecided_at(R, name, v.why)
        elif not axial(v.left, v.right):
            rep.undecided_at(R, name, 'differs from the reference in something else than an axis')
        else:
            k = v.why if v.why.startswith('call of') else o
            if k in seen:
                continue
            seen.add(k)
            rep.bad(R, '%s -> %s' % (qual, k), code.where, '%s takes %s where %s is required%s' % (
                '%s -> %s' % (qual, k), pretty(v.left)[:250] if v.left is not None else 'nothing', pretty(v.right)[:250] if v.right is not None else 'nothing',
                ' (when %s)' % show_env(v.env)[:250] if v.env else ''))


def references(ctx):
    out = {}
    for m in MODULES:
        kws = getattr(importlib.import_module('vstatic.rules.' + m), 'KW', {})
        for qual, spec in specs.specs_of(ctx, m).items():
            if qual not in out and concerns(spec):
                out[qual] = (spec, kws.get(qual, {}))
    return out


def run(ctx, rep):
    rep.rule(R, 'every value that a function of two axes computes takes the quantities of each axis (offset, width, sampling, count, rows or columns) where its '
                'reference definition does')
    refs = references(ctx)
    for qual in sorted(refs):
        decide(ctx, rep, qual, *refs[qual])
    rep.floor('reference_comparisons', 40)
    specbased.positives(ctx, rep, 'C06', 'c06', **KW)
    rep.assumptions += ['horizontal is the second array index, vertical the first, as the MFT and the coordinate references state',
                        'differences that involve no quantity of an axis belong to the other properties']

"""C05: the control model never reads the truth model's parameters, nor vice versa."""
import re

from .. import selftest
from ..interp import Budget, Interp
from ..terms import path_of, paths_in, walk
from . import specbased

R1 = 'reads-own-model-only'
R2 = 'stores-own-model-only'
R3 = 'one-model-per-call'
R4 = 'models-do-not-share-objects'
R5 = 'calls-own-model-only'
R6 = 'equals-reference'
KW = {'falco.hlc.gen_fpm_surf_from_cube': {'refuses': False}}

M, J, I = 'falco.model.models.', 'falco.model.jacobians.', 'falco.imaging.'
FULL_MODEL = {M + 'full', M + 'full_Fourier', I + '_model_full_norm_wrapper', I + '_get_single_sim_full_image', I + '_get_subband_image_component',
              I + '_get_single_sim_full_image_one_arg', 'falco.zern.falco_get_single_sim_Efield_LamPol', 'falco.zern.falco_get_single_sim_Efield_LamPolZern',
              'falco.est._est_perfect_Efield_with_Zernikes_in_parallel'}
COMPACT_MODEL = {M + 'compact', M + 'compact_general', M + 'compact_reverse_gradient', M + '_get_compact_hlc_fpm', M + 'jacobian', M + '_jac_middle_layer',
                 J + 'precomp', J + 'lyot', J + 'vortex', J + 'no_fpm', I + 'get_sim_offaxis_image_compact', I + 'get_expected_summed_image'}
# functions that serve one of the models, or one of the two sides that they stand for (truth: images and exact fields; control: the linear model and its weights)
FULL_SIDE = FULL_MODEL | {I + 'get_sim_sbp_image', I + 'get_summed_image', I + 'get_sbp_image', I + '_with_polaxis', 'falco.est.perfect', 'falco.zern.calc_zern_sens'}
COMPACT_SIDE = COMPACT_MODEL | {I + 'calc_thput', M + 'apply_ties_to_jac', 'falco.est.pairwise_probing', 'falco.setup.falco_set_jacobian_modal_weights',
                                'falco.setup.falco_set_spatial_weights', 'falco.ctrl.apply_spatial_weighting_to_Jacobian', 'falco.ctrl.wrapper',
                                'falco.ctrl._efc', 'falco.ctrl._ad_efc', 'falco.ctrl._grid_search_efc', 'falco.ctrl._planned_efc', 'falco.ctrl._planned_ad_efc',
                                'falco.ctrl.set_utu_scale_fac', 'falco.wfsc.compute_simulated_efield_for_delta_efield_plot'}
# the control side also looks at images of the testbed or of its stand-in (the truth), which is what it is for
IMAGES = {I + 'get_summed_image', I + 'get_sbp_image', I + 'get_sim_sbp_image', I + 'calc_psf_norm_factor'}
# arguments that tell a function which of the two models it works for
KIND = {'model_type', 'modelType', 'modeltype'}
# (function, path): one value serves both models
COSINE = 'the cosine rings are defined for equal resolutions of the two models only: the function refuses anything else'
SHARED = {('falco.hlc.setup_fpm_cosine', 'dm9.NdmPad'): COSINE, ('falco.hlc.setup_fpm_cosine', 'dm9.Nbox'): COSINE, ('falco.hlc.setup_fpm_cosine', 'dm9.inf_datacube'): COSINE,
          ('falco.hlc.setup_fpm', 'dm9.compact.inf_datacube'): 'the resolution of the full model cancels in r * dm_spacing / dxi / res: the same actuators are emptied in both models'}


def own(parts):
    return [x for x in parts if x not in ('', '[]')]


def world(path):
    """Which model a parameter path belongs to."""
    parts = own(re.findall(r'\[\]|[^.\[\]]+', path))
    if 'full' in parts or 'complexTransFull' in parts:
        return 'full'
    if 'compact' in parts or 'complexTransCompact' in parts:
        return 'compact'
    return None


def paired(ctx):
    """Attributes of a mirror of which there is one for each model: mp.dmK.X for the full and mp.dmK.compact.X for the compact model."""
    seen, base = set(), set()
    for f in ctx.funcs():
        s = ctx.S.get(f)
        if s is None or s.error:
            continue
        for b, a, _, _, _, _, _ in s.interp.reads:
            root, p = path_of(b)
            parts = own((p + '.' + a).split('.'))
            if root.op == 'param' and len(parts) >= 3 and re.fullmatch(r'dm\d', parts[0]) and parts[1] == 'compact':
                seen.add(parts[2])
            elif root.op == 'param' and len(parts) >= 2 and re.fullmatch(r'dm\d', parts[0]):
                base.add(parts[1])
    return seen & base


def other(w):
    return 'compact' if w == 'full' else 'full'


def world_of(parts, pairs):
    """Like world(), and the mirror attributes of which the compact model has its own belong to the full model."""
    w = world('.'.join(parts))
    if w is None and len(parts) >= 2 and re.fullmatch(r'dm\d', parts[0]) and parts[1] in pairs:
        return 'full'
    return w


def decide(funcs, S, interp, side, callees, pairs, emit, ok, undecided):
    """emit(rule, function, construct, where, message)"""
    for f in funcs:
        s = S.get(f)
        if s is None or s.error:
            undecided(f, s.error if s is not None else 'recursive')
            continue
        mine = side(f)
        if mine:
            seen = set()
            for b, a, node, fn, pc, v, task in s.interp.reads:
                root, p = path_of(b)
                p = p + '.' + a
                parts = own(p.split('.'))
                w = world(p)
                if w is None and mine == 'compact' and len(parts) >= 2 and re.fullmatch(r'dm\d', parts[0]) and parts[1] in pairs:
                    w = 'full'
                if w == other(mine):
                    k = '.'.join(parts)
                    if k not in seen and not any(k.startswith(x + '.') for x in seen):
                        seen.add(k)
                        emit(R1, f, 'reads ' + k, where(fn, node), '%s works for the %s model but reads %s' % (f.qual, mine, k))
                else:
                    ok(R1)
            for c in s.interp.calls:
                if not c.qual:
                    continue
                if c.qual in callees:
                    w = callees[c.qual]
                    if w == other(mine):
                        emit(R5, f, 'calls ' + c.qual, c.where(), '%s works for the %s model but calls %s' % (f.qual, mine, c.qual))
                    else:
                        ok(R5)
                for k, x in (c.bound or {}).items():
                    if k in KIND and x.op == 'const':
                        if x.py == other(mine):
                            emit(R5, f, '%s(%s=%r)' % (c.qual, k, x.py), c.where(), '%s works for the %s model but asks %s for the %s model' % (f.qual, mine, c.qual, x.py))
                        else:
                            ok(R5)
        ip = interp()
        ip.keep = lambda p: world_of(own(re.findall(r'\[\]|[^.\[\]]+', p)), pairs) is not None
        try:
            ip.run(f)
        except Budget as ex:
            undecided(f, str(ex))
            continue
        for e in ip.effects:
            if e.kind not in ('attr', 'inplace') or e.root.op != 'param' or (e.how or '').startswith('via '):
                continue
            parts = own(re.findall(r'\[\]|[^.\[\]]+', e.path or ''))
            if (f.qual, '.'.join(parts)) in SHARED:
                continue
            w = world_of(parts, pairs)
            if w is None:
                continue
            bad = set()
            for x in [e.content if e.content is not None else e.value, e.index]:
                if x is None or not hasattr(x, 'op'):
                    continue
                bad |= {p for p in paths_in(x) if world_of(own(p.split('.')), pairs) == other(w)}
                for y in walk(x):
                    if y.op == 'call' and callees.get(y.a[0]) == other(w):
                        bad.add(y.a[0])
            for c, _ in e.pc or ():
                ps = {world_of(own(p.split('.')), pairs): p for p in paths_in(c)}
                if other(w) in ps and w not in ps:
                    bad.add('the condition on ' + ps[other(w)])
            for p in sorted(bad):
                emit(R2, f, '%s from %s' % (e.path.lstrip('.'), p), e.where(), '%s stores in %s what it takes from %s' % (f.qual, e.path.lstrip('.'), p))
            if not bad:
                ok(R2)
            # the object of one model as the object of the other
            if e.kind == 'attr' and e.value is not None and e.attr in ('full', 'compact') and e.value.op in ('attr', 'param'):
                root, p = path_of(e.value)
                if e.path.rsplit('.', 1)[0] == p and root is e.root or world(p) == other(w):
                    emit(R4, f, '%s is %s' % (e.path.lstrip('.'), p.lstrip('.')), e.where(),
                         '%s makes %s the very object %s: what is stored for one model replaces what was stored for the other' % (f.qual, e.path.lstrip('.'), p.lstrip('.')))
                else:
                    ok(R4)
            elif e.kind == 'attr' and e.attr in ('full', 'compact'):
                ok(R4)
        for c in ip.calls:
            if not c.qual or not c.qual.startswith(('falco.', 'posex.')) or c.qual.startswith(('falco.check.', 'falco.plot.')):
                continue
            ws = {}
            for x in list(c.args) + [v for _, v in c.kw]:
                if x is None or not hasattr(x, 'op'):
                    continue
                for p in paths_in(x):
                    if world(p):
                        ws.setdefault(world(p), set()).add(p)
            if len(ws) > 1:
                emit(R3, f, 'call of %s with %s' % (c.qual, ' and '.join(sorted(min(v) for v in ws.values()))), c.where(),
                     '%s hands %s quantities of both models: %s' % (f.qual, c.qual, ', '.join(sorted(min(v) for v in ws.values()))))
            elif ws:
                ok(R3)


def where(fn, node):
    return '%s:%d' % (fn.mod.rel, getattr(node, 'lineno', 0)) if fn is not None else '?'


def run(ctx, rep):
    rep.rule(R1, 'no function of the compact-model side reads a parameter path of the full model (…full…, or a mirror attribute of which the compact model has its own), '
                 'and no function of the full-model side reads one of the compact model, whatever local names or helpers the path goes through')
    rep.rule(R2, 'what is stored at a path of one model depends on no path of the other model and on no result of the other model')
    rep.rule(R3, 'no call of a function of the package receives quantities of both models')
    rep.rule(R4, 'no object of one model is made the object of the other')
    rep.rule(R5, 'the functions of one side do not call the other model, nor ask a shared function for it')
    rep.rule(R6, 'the functions that serve either model on request equal their reference definitions')
    callees = {q: 'full' for q in FULL_MODEL}
    callees.update({q: 'compact' for q in COMPACT_MODEL})
    sides = {q: 'full' for q in FULL_SIDE}
    sides.update({q: 'compact' for q in COMPACT_SIDE})
    pairs = paired(ctx)
    rep.count('mirror_attributes_of_both_models', len(pairs))
    rep.floor('mirror_attributes_of_both_models', 3)
    known = set()

    def emit(rule, f, construct, at, msg):
        rep.bad(rule, '%s %s' % (f.qual, construct), at, msg)

    def side(f):
        w = sides.get(f.qual)
        if w:
            known.add(f.qual)
        return w
    decide(ctx.funcs(), ctx.S, ctx.interp, side, callees, pairs, emit, lambda r: rep.ok(r), lambda f, why: rep.undecided_at(R1, f.qual, why))
    rep.count('functions_of_one_side', len(known))
    rep.floor('functions_of_one_side', 20)
    specbased.run_refs(ctx, rep, 'c05', R6, 2, **KW)
    # positive examples
    repo, S = selftest.posrepo()
    found = set()
    pos = selftest.posfuncs('c05')

    def pside(f):
        return 'compact' if '_compact' in f.name else 'full' if '_full' in f.name else None
    decide(pos, S, lambda: Interp(repo, policy=lambda q, d: 'opaque', summaries=S), pside, {'posex.c05.full': 'full', 'posex.c05.compact': 'compact'}, {'inf_datacube'}, lambda r, f, *a: found.add(f.name), lambda r: None, lambda *a: None)
    selftest.exact(rep, 'C05', 'c05', found)
    specbased.positives(ctx, rep, 'C05', 'c05', **KW)
    rep.assumptions += ['a quantity belongs to a model when its path says so (a component named full or compact, and the listed mirror attributes)',
                        'quantities of both models may decide together whether something is set up at all']

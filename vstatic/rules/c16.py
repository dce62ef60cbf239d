"""C16: Jacobian and gradient share the optical train of the compact model."""
from ..terms import mk, FALSE
from . import specbased

R = 'equals-reference'


def serial(a):
    return {mk('attr', a['mp'], 'flagParallel'): FALSE}


M = 'falco.model.models.'
J = 'falco.model.jacobians.'
JL = tuple('mp.jac.' + a for a in ('Edm1_list', 'Edm2_list', 'Epeak_list', 'Eocculted_list', 'Nfft1_list', 'Nfft2_list', 'fftshiftVortexDM1_list',
                                   'fftshiftVortexDM2_list'))
KW = {
    M + '_get_compact_hlc_fpm': {}, M + 'compact': {}, M + 'compact_general': {}, M + 'full': {}, M + 'full_Fourier': {'refuses': False},
    M + '_jac_middle_layer': {}, J + 'lyot': {'refuses': False}, J + 'vortex': {'refuses': False}, J + 'no_fpm': {'refuses': False},
    J + 'precomp': {'outs': JL, 'orch': True},
    M + 'apply_ties_to_jac': {'outs': ('jacStruct.G1', 'jacStruct.G2', 'mp.dm1', 'mp.dm2'), 'orch': True},
    M + 'jacobian': {'outs': ('return.G1', 'return.G2', 'mp.dm1.compact.surfM', 'mp.dm2.compact.surfM', 'mp.compact.fpmCube'), 'orch': True, 'assume': serial},
    M + 'compact_reverse_gradient': {'outs': ('return', 'mp.dm1.V', 'mp.dm2.V'), 'orch': True},
}


def run(ctx, rep):
    rep.rule(R, 'the compact model, the full model, the Jacobian columns, the fields they start from and the reverse gradient each equal their reference definition, '
                'in which the elements of the optical train are written once and shared')
    specbased.run_refs(ctx, rep, 'c16', R, 13, **KW)
    specbased.positives(ctx, rep, 'C16', 'c16', **KW)
    rep.assumptions += ['the propagators, pad_crop and the surface generators are functions of their arguments (their own definitions are C17, C20, C21)',
                        'exact arithmetic; numpy entry points have their documented meaning']

"""C15: per-wavelength, per-mode and per-star quantities are matched by index."""
from ..terms import mk, FALSE
from . import specbased

R = 'equals-reference'


def serial(a):
    return {mk('attr', a['mp'], 'flagParallel'): FALSE}


I, S, H, Z = 'falco.imaging.', 'falco.setup.', 'falco.hlc.', 'falco.zern.'


def outs(pre, *names):
    return tuple(pre + n for n in names)


KW = {
    I + 'add_noise_to_subband_image': {'orch': True},
    I + '_get_single_sim_full_image': {'orch': True},
    I + 'get_sbp_image': {},
    I + '_get_subband_image_component': {'orch': True},
    I + 'get_sim_sbp_image': {'orch': True, 'assume': serial},
    I + 'get_summed_image': {'orch': True},
    I + 'get_expected_summed_image': {'orch': True, 'outs': ('return', 'mp.dm1.V', 'mp.dm2.V', 'mp.dm8.V', 'mp.dm9.V')},
    I + 'get_sim_offaxis_image_compact': {'orch': True},
    I + 'calc_thput': {'orch': True},
    I + '_model_full_norm_wrapper': {'orch': True},
    I + 'calc_psf_norm_factor': {'orch': True, 'assume': serial, 'outs': ('mp.sumPupil', 'mp.Fend.compact.I00', 'mp.Fend.eval.I00', 'mp.Fend.full.I00')},
    S + 'falco_set_spectral_properties': {'orch': True, 'outs': outs('mp.', 'si_ref', 'wi_ref', 'sbp_weights', 'sbp_centers') + outs(
        'mp.full.', 'lambda_weights', 'dlam', 'lambdasMat', 'indsLambdaMat', 'indsLambdaUnique', 'lambdas', 'lambda_weights_all', 'NlamUnique')},
    S + 'falco_set_jacobian_modal_weights': {'orch': True, 'outs': outs(
        'mp.jac.', 'zerns', 'Zcoef', 'Nzern', 'weightMat', 'weightMatInd', 'NmodePerStar', 'Nmode', 'weights', 'sbp_inds', 'zern_inds', 'star_inds')},
    S + 'falco_set_initial_Efields': {'orch': True, 'outs': ('mp.P1.full.E', 'mp.P1.compact.E')},
    S + 'falco_set_spatial_weights': {'orch': True, 'outs': ('mp.Wspatial', 'mp.WspatialVec')},
    H + 'gen_fpm_from_LUT': {'orch': True},
    H + 'gen_fpm_cube_from_LUT': {'orch': True},
    H + 'discretize_fpm_surf': {},
    H + 'gen_fpm_surf_from_cube': {},
    Z + 'falco_get_single_sim_Efield_LamPol': {'orch': True},
    Z + 'falco_get_single_sim_Efield_LamPolZern': {'orch': True},
    Z + 'calc_zern_sens': {'orch': True, 'assume': serial},
}


def run(ctx, rep):
    rep.rule(R, 'the images, normalisations, spectral and modal tables, occulter look-ups and Zernike sensitivities equal their reference definitions, in which every '
                'tabulated quantity is taken at the index of the wavelength, mode, star or polarisation at hand')
    specbased.run_refs(ctx, rep, 'c15', R, 22, **KW)
    rep.floor('calls_matched_with_reference', 10)
    specbased.positives(ctx, rep, 'C15', 'c15', **KW)
    rep.assumptions += ['model fields are unknown functions of what the models read (their own definitions are the subject of C16)',
                        'exact arithmetic; numpy entry points have their documented meaning']

"""Reference definitions for C15: quantities tabulated per subband, wavelength, star or mode are used at the index of the case at hand."""
import copy
import numpy as np
import falco
from falco.util import pad_crop


# ---------------------------------------------------------------- images

def falco__imaging__add_noise_to_subband_image(mp, imageIn, iSubband):
    falco.check.twoD_array(imageIn, 'imageIn', ValueError)
    falco.check.nonnegative_scalar_integer(iSubband, 'iSubband', ValueError)
    tExp = mp.detector.tExpVec[iSubband]
    peakCounts = mp.detector.peakFluxVec[iSubband] * tExp
    peakElectrons = mp.detector.gain * peakCounts
    counts = 0
    for iExp in range(mp.detector.Nexp):
        shot = np.random.poisson(peakElectrons * imageIn)
        dark = np.random.poisson(mp.detector.darkCurrentRate * tExp * np.ones_like(imageIn))
        read = mp.detector.readNoiseStd * np.random.randn(imageIn.shape[0], imageIn.shape[1])
        counts = counts + np.round((shot + dark + read) / mp.detector.gain) / mp.detector.Nexp
    return counts / peakCounts


def _case(sbpIndex, wpsbpIndex, starIndex):
    modvar = falco.config.ModelVariables()
    modvar.sbpIndex = sbpIndex
    modvar.wpsbpIndex = wpsbpIndex
    modvar.whichSource = 'star'
    modvar.starIndex = starIndex
    return modvar


def _polarised(mp, polaxis):
    mpOut = copy.copy(mp)
    mpOut.full = copy.copy(mp.full)
    mpOut.full.polaxis = polaxis
    return mpOut


def falco__imaging___get_single_sim_full_image(mp, ilist, vals_list):
    ilam, pol, iStar = vals_list[ilist][0], vals_list[ilist][1], vals_list[ilist][2]
    row = mp.full.indsLambdaUnique[ilam]
    modvar = _case(mp.full.indsLambdaMat[row, 0], mp.full.indsLambdaMat[row, 1], iStar)
    return np.abs(falco.model.full(_polarised(mp, pol), modvar))**2


def falco__imaging__get_sbp_image(mp, si):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    falco.check.nonnegative_scalar_integer(si, 'si', TypeError)
    return falco.imaging.get_sim_sbp_image(mp, si) if mp.flagSim else falco.imaging.get_testbed_sbp_image(mp, si)


def falco__imaging___get_subband_image_component(mp, si, ilist, inds_list):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    falco.check.nonnegative_scalar_integer(si, 'si', TypeError)
    wi, ipol, iStar = inds_list[ilist][0], inds_list[ilist][1], inds_list[ilist][2]
    E = falco.model.full(_polarised(mp, mp.full.pol_conds[ipol]), _case(si, wi, iStar))
    return mp.full.lambda_weights[wi] / len(mp.full.pol_conds) * np.abs(E)**2


def falco__imaging__get_sim_sbp_image(mp, si):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    falco.check.nonnegative_scalar_integer(si, 'si', TypeError)
    Npol = len(mp.full.pol_conds)
    cases = [(wi, ipol, iStar) for wi in range(mp.Nwpsbp) for ipol in range(Npol) for iStar in range(mp.star.count)]
    N = mp.Nwpsbp * Npol * mp.star.count
    stack = np.zeros((N, mp.Fend.Neta, mp.Fend.Nxi))
    for k in range(N):
        stack[k, :, :] = falco.imaging._get_subband_image_component(mp, si, k, cases)
    image = 0
    for k in range(N):
        image = image + np.squeeze(stack[k, :, :])
    if mp.flagImageNoise:
        image = falco.imaging.add_noise_to_subband_image(mp, image, si)
    return image


def falco__imaging__get_summed_image(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    total = 0
    if mp.flagSim and mp.flagParallel and not mp.flagImageNoise:
        cases = [(ilam, pol, iStar) for ilam in range(mp.full.NlamUnique) for pol in mp.full.pol_conds for iStar in range(mp.star.count)]
        N = mp.full.NlamUnique * len(mp.full.pol_conds) * mp.star.count
        images = [falco.imaging._get_single_sim_full_image(mp, k, cases) for k in range(N)]
        for k in range(N):
            total = total + mp.full.lambda_weights_all[cases[k][0]] / len(mp.full.pol_conds) * images[k]
    else:
        for si in range(mp.Nsbp):
            total = total + mp.sbp_weights[si] * falco.imaging.get_sbp_image(mp, si)
    return total


def falco__imaging__get_expected_summed_image(mp, cvar, dDM):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    after = np.zeros((mp.Fend.corr.Npix, mp.Nsbp), dtype=complex)
    before = np.zeros((mp.Fend.corr.Npix, mp.Nsbp), dtype=complex)
    if any(mp.dm_ind == 1):
        V1 = mp.dm1.V.copy()
    if any(mp.dm_ind == 2):
        V2 = mp.dm2.V.copy()
    if any(mp.dm_ind == 8):
        V8 = mp.dm8.V.copy()
    if any(mp.dm_ind == 9):
        V9 = mp.dm9.V.copy()
    modvar = falco.config.ModelVariables()
    modvar.whichSource = 'star'
    for si in range(mp.Nsbp):
        modvar.sbpIndex = si
        after[:, si] = falco.model.compact(mp, modvar)[mp.Fend.corr.maskBool]
    if any(mp.dm_ind == 1):
        mp.dm1.V = mp.dm1.V - dDM.dDM1V
    if any(mp.dm_ind == 2):
        mp.dm2.V = mp.dm2.V - dDM.dDM2V
    if any(mp.dm_ind == 8):
        mp.dm8.V = mp.dm8.V - dDM.dDM8V
    if any(mp.dm_ind == 9):
        mp.dm9.V = mp.dm9.V - dDM.dDM9V
    modvar.wpsbpIndex = 0
    for si in range(mp.Nsbp):
        modvar.sbpIndex = si
        before[:, si] = falco.model.compact(mp, modvar)[mp.Fend.corr.maskBool]
    image = 0
    for si in range(mp.Nsbp):
        E2D = np.zeros((mp.Fend.Neta, mp.Fend.Nxi), dtype=complex)
        E2D[mp.Fend.corr.maskBool] = cvar.Eest[:, si] + after[:, si] - before[:, si]
        image = image + mp.sbp_weights[si] * np.abs(E2D)**2
    if any(mp.dm_ind == 1):
        mp.dm1.V = V1
    if any(mp.dm_ind == 2):
        mp.dm2.V = V2
    if any(mp.dm_ind == 8):
        mp.dm8.V = V8
    if any(mp.dm_ind == 9):
        mp.dm9.V = V9
    return image


def falco__imaging__get_sim_offaxis_image_compact(mp, x_offset, y_offset, isEvalMode=False):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    falco.check.real_scalar(x_offset, 'x_offset', TypeError)
    falco.check.real_scalar(y_offset, 'y_offset', TypeError)
    if not isinstance(isEvalMode, bool):
        raise TypeError('isEvalMode')
    modvar = falco.config.ModelVariables()
    modvar.whichSource = 'offaxis'
    modvar.x_offset = x_offset
    modvar.y_offset = y_offset
    image = 0.
    for iStar in range(mp.compact.star.count):
        modvar.starIndex = iStar
        for si in range(mp.Nsbp):
            modvar.sbpIndex = si
            modvar.zernIndex = 1
            E = falco.model.compact(mp, modvar, isEvalMode=isEvalMode)
            image = image + np.abs(E)**2 * mp.jac.weightMat[si, 0]
    return image


def falco__imaging__calc_thput(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    image = falco.imaging.get_sim_offaxis_image_compact(mp, mp.thput_eval_x, mp.thput_eval_y, isEvalMode=True)
    inside = np.zeros(mp.Fend.eval.RHOS.shape, dtype=bool)
    if mp.thput_metric.lower() == 'hmi':
        inside[image >= 0.5 * np.max(image)] = True
    elif mp.thput_metric.lower() in ('ee', 'e.e.'):
        inside[mp.Fend.eval.RHOS <= mp.thput_radius] = True
    else:
        raise ValueError('thput_metric')
    return np.sum(image[inside == 1]) / mp.sumPupil * np.mean(mp.Fend.eval.I00), image


def falco__imaging___model_full_norm_wrapper(mp, ilist, inds_list):
    modvar = _case(inds_list[ilist][0], inds_list[ilist][1], 0)
    modvar.zernIndex = 1
    return np.max(np.abs(falco.model.full(mp, modvar, isNorm=False))**2)


def falco__imaging__calc_psf_norm_factor(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    mp.sumPupil = np.sum(np.abs(mp.P1.compact.mask * pad_crop(np.mean(mp.P1.compact.E, axis=2), mp.P1.compact.mask.shape))**2)
    if not hasattr(mp.Fend, 'compact'):
        mp.Fend.compact = falco.config.Object()
    if not hasattr(mp.Fend, 'eval'):
        mp.Fend.eval = falco.config.Object()
    if not hasattr(mp.Fend, 'full'):
        mp.Fend.full = falco.config.Object()
    mp.Fend.compact.I00 = np.ones(mp.Nsbp)
    mp.Fend.eval.I00 = np.ones(mp.Nsbp)
    mp.Fend.full.I00 = np.ones((mp.Nsbp, mp.Nwpsbp))
    modvar = falco.config.ModelVariables()
    modvar.zernIndex = 1
    modvar.whichSource = 'star'
    modvar.starIndex = 0
    for si in range(mp.Nsbp):
        modvar.sbpIndex = si
        mp.Fend.compact.I00[si] = np.max(np.abs(falco.model.compact(mp, modvar, isNorm=False))**2)
    for si in range(mp.Nsbp):
        modvar.sbpIndex = si
        mp.Fend.eval.I00[si] = np.max(np.abs(falco.model.compact(mp, modvar, isNorm=False, isEvalMode=True))**2)
    if mp.flagSim:
        for si in range(mp.Nsbp):
            for wi in range(mp.Nwpsbp):
                modvar.sbpIndex = si
                modvar.wpsbpIndex = wi
                mp.Fend.full.I00[si, wi] = np.max(np.abs(falco.model.full(mp, modvar, isNorm=False))**2)


# ---------------------------------------------------------------- tables

def falco__setup__falco_set_spectral_properties(mp):
    mp.si_ref = np.floor(mp.Nsbp / 2).astype(int)
    mp.wi_ref = np.floor(mp.Nwpsbp / 2).astype(int)
    weights = np.ones((mp.Nsbp, 1))
    if mp.Nwpsbp == 1 and mp.flagSim:
        if mp.Nsbp == 1:
            mp.sbp_centers = np.array([mp.lambda0])
        else:
            mp.sbp_centers = mp.lambda0 * np.linspace(1 - mp.fracBW / 2, 1 + mp.fracBW / 2, mp.Nsbp)
            weights[0] = 1/2
            weights[-1] = 1/2
    else:
        bw = mp.fracBW * (1 - 1 / mp.Nsbp)
        mp.sbp_centers = mp.lambda0 * np.linspace(1 - bw / 2, 1 + bw / 2, mp.Nsbp)
    mp.sbp_weights = weights / np.sum(weights)
    lambda_weights = np.ones((mp.Nwpsbp, 1))
    if mp.Nwpsbp == 1:
        mp.full.dlam = 0
    else:
        lambda_weights[0] = 1/2
        lambda_weights[-1] = 1/2
        bw = mp.fracBW / mp.Nsbp
        factors = np.linspace(1 - bw / 2, 1 + bw / 2, mp.Nwpsbp)
        mp.full.dlam = (factors[1] - factors[0]) * mp.lambda0
    mp.full.lambda_weights = lambda_weights / np.sum(lambda_weights)
    lambdas = np.zeros((mp.Nsbp * mp.Nwpsbp,))
    weights_all = np.zeros((mp.Nsbp * mp.Nwpsbp,))
    mp.full.lambdasMat = np.zeros((mp.Nsbp, mp.Nwpsbp))
    mp.full.indsLambdaMat = np.zeros((mp.Nsbp * mp.Nwpsbp, 2), dtype=int)
    k = 0
    for si in range(mp.Nsbp):
        if mp.Nwpsbp == 1:
            mp.full.lambdasMat[si, 0] = mp.sbp_centers[si]
        else:
            mp.full.lambdasMat[si, :] = mp.sbp_centers[si] + mp.full.dlam * np.arange(-(mp.Nwpsbp - 1) / 2, (mp.Nwpsbp + 1) / 2)
        for wi in range(mp.Nwpsbp):
            lambdas[k] = mp.full.lambdasMat[si, wi]
            weights_all[k] = mp.sbp_weights[si].item() * mp.full.lambda_weights[wi].item()
            mp.full.indsLambdaMat[k, :] = [si, wi]
            k = k + 1
    _, unique = np.unique(np.round(1e12 * lambdas), return_index=True)
    mp.full.indsLambdaUnique = unique
    repeated = np.setdiff1d(np.arange(len(lambdas), dtype=int), unique)
    mp.full.lambdas = lambdas[unique]
    mp.full.lambda_weights_all = weights_all[unique]
    for r in range(len(repeated)):
        same = np.where(np.abs(mp.full.lambdas - lambdas[repeated[r]]) <= 1e-11)
        mp.full.lambda_weights_all[same] = mp.full.lambda_weights_all[same] + weights_all[repeated[r]]
    mp.full.NlamUnique = len(unique)


def falco__setup__falco_set_jacobian_modal_weights(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    mp.jac.zerns = np.atleast_1d(mp.jac.zerns)
    mp.jac.Zcoef = np.array(mp.jac.Zcoef, ndmin=1)
    mp.jac.Nzern = np.size(mp.jac.zerns)
    if not np.any(mp.jac.zerns == 1):
        raise ValueError('piston')
    if np.size(mp.jac.zerns) != len(set(mp.jac.zerns)):
        raise ValueError('repeated')
    mp.jac.Zcoef[mp.jac.zerns == 1] = 1
    W = np.zeros((mp.Nsbp, mp.jac.Nzern))
    for k in range(mp.jac.Nzern):
        if mp.jac.zerns[k] == 1:
            W[:, k] = np.ones(mp.Nsbp)
        else:
            W[0, k] = 1
            W[mp.si_ref, k] = 1
            W[mp.Nsbp - 1, k] = 1
    if mp.estimator.lower() == 'perfect':
        W[0, :] = 0.5 * W[0, :]
        W[mp.Nsbp - 1, :] = 0.5 * W[mp.Nsbp - 1, :]
    for k in range(mp.jac.Nzern):
        W[:, k] = W[:, k] / np.double(sum(W[:, k]))
    for k in range(mp.jac.Nzern):
        if mp.jac.Zcoef[k] == 0:
            W[:, k] = 0 * W[:, k]
    mp.jac.weightMat = W
    used = np.nonzero(W > 0)
    mp.jac.weightMatInd = used
    Nmode = len(used[0])
    Nstar = mp.compact.star.count
    mp.jac.NmodePerStar = Nmode
    mp.jac.Nmode = Nstar * Nmode
    mp.jac.weights = np.tile(W[used], Nstar)
    mp.jac.sbp_inds = np.tile(np.tile(np.arange(mp.Nsbp).reshape((mp.Nsbp, 1)), (1, mp.jac.Nzern))[used], Nstar)
    mp.jac.zern_inds = np.tile(np.tile(mp.jac.zerns, (mp.Nsbp, 1))[used], Nstar)
    mp.jac.star_inds = np.zeros(mp.jac.Nmode, dtype=int)
    for iStar in range(Nstar):
        mp.jac.star_inds[iStar * Nmode:(iStar + 1) * Nmode] = iStar * np.ones(Nmode, dtype=int)


def falco__setup__falco_set_initial_Efields(mp):
    if not hasattr(mp.P1.full, 'E'):
        mp.P1.full.E = np.ones((mp.P1.full.Narr, mp.P1.full.Narr, mp.Nwpsbp, mp.Nsbp), dtype=complex)
    elif mp.P1.full.E.shape[0] != mp.P1.full.Narr:
        E = mp.P1.full.E.copy()
        mp.P1.full.E = np.ones((mp.P1.full.Narr, mp.P1.full.Narr, mp.Nwpsbp, mp.Nsbp), dtype=complex)
        for si in range(mp.Nsbp):
            for wi in range(mp.Nwpsbp):
                mp.P1.full.E[:, :, wi, si] = pad_crop(E[:, :, wi, si], mp.P1.full.Narr)
    if not hasattr(mp.P1.compact, 'E'):
        mp.P1.compact.E = np.ones((mp.P1.compact.Narr, mp.P1.compact.Narr, mp.Nsbp), dtype=complex)
    elif mp.P1.compact.E.shape[0] != mp.P1.compact.Narr:
        E = copy.deepcopy(mp.P1.compact.E)
        mp.P1.compact.E = np.ones((mp.P1.compact.Narr, mp.P1.compact.Narr, mp.Nsbp), dtype=complex)
        for si in range(mp.Nsbp):
            mp.P1.compact.E[:, :, si] = pad_crop(E[:, :, si], mp.P1.compact.Narr)


def falco__setup__falco_set_spatial_weights(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    XIS, ETAS = np.meshgrid(mp.Fend.xisDL, mp.Fend.etasDL)
    RHOS = np.sqrt(XIS**2 + ETAS**2)
    mp.Wspatial = copy.copy(mp.Fend.corr.maskBool).astype(float)
    if hasattr(mp, 'WspatialDef'):
        mp.WspatialDef = np.atleast_2d(mp.WspatialDef)
        if mp.WspatialDef.size > 0:
            for k in range(mp.WspatialDef.shape[0]):
                mp.Wspatial = mp.Wspatial * (1. + (np.sqrt(mp.WspatialDef[k, 2]) - 1.)
                                             * ((RHOS >= mp.WspatialDef[k, 0]) & (RHOS < mp.WspatialDef[k, 1])))
    mp.WspatialVec = np.zeros((np.sum(mp.Fend.corr.maskBool.astype(int)), mp.compact.star.count))
    for iStar in range(mp.compact.star.count):
        mp.WspatialVec[:, iStar] = mp.jac.star.weights[iStar] * mp.Wspatial[mp.Fend.corr.maskBool]


# ---------------------------------------------------------------- occulter tables

def _layers(mp, modelType):
    metal = falco.hlc.gen_fpm_surf_from_cube(mp.dm8, modelType)
    diel = mp.t_diel_bias_nm * 1e-9 + falco.hlc.gen_fpm_surf_from_cube(mp.dm9, modelType)
    return metal, diel


def _index(mp, metal, diel):
    return (falco.hlc.discretize_fpm_surf(metal, mp.t_metal_nm_vec, mp.dt_metal_nm),
            falco.hlc.discretize_fpm_surf(diel, mp.t_diel_nm_vec, mp.dt_diel_nm))


def falco__hlc__gen_fpm_from_LUT(mp, si, wi, modelType):
    if modelType.lower() == 'compact':
        table, ilam = mp.complexTransCompact, si
    elif modelType.lower() == 'full':
        table, ilam = mp.complexTransFull, (si if mp.Nwpsbp == 1 else si * (mp.Nwpsbp - 1) + wi)
    else:
        raise ValueError('modelType')
    metal, diel = _layers(mp, modelType)
    if metal.size != diel.size:
        raise ValueError('size')
    im, jd = _index(mp, metal, diel)
    fpm = np.zeros((metal.shape[0], metal.shape[1]), dtype=complex)
    for ix in range(metal.shape[1]):
        for iy in range(metal.shape[0]):
            fpm[iy, ix] = table[jd[iy, ix], im[iy, ix], ilam]
    return fpm


def falco__hlc__gen_fpm_cube_from_LUT(mp, modelType):
    if modelType.lower() == 'compact':
        table, lam = mp.complexTransCompact, mp.sbp_centers
    elif modelType.lower() == 'full':
        table, lam = mp.complexTransFull, mp.full.lambdas
    else:
        raise ValueError('modelType')
    metal, diel = _layers(mp, modelType)
    if metal.shape != diel.shape:
        raise ValueError('shape')
    im, jd = _index(mp, metal, diel)
    cube = np.zeros((metal.shape[0], metal.shape[1], len(lam)), dtype=complex)
    for ilam in range(len(lam)):
        for ix in range(metal.shape[1]):
            for iy in range(metal.shape[0]):
                cube[iy, ix, ilam] = table[jd[iy, ix], im[iy, ix], ilam]
    return cube, metal, diel


def falco__hlc__discretize_fpm_surf(FPMsurf, t_nm_vec, dt_nm):
    surf = 1e9 * FPMsurf
    surf[surf < np.min(t_nm_vec)] = np.min(t_nm_vec)
    surf[surf > np.max(t_nm_vec)] = np.max(t_nm_vec)
    return np.round(1 / dt_nm * (surf - np.min(t_nm_vec))).astype(int)


def falco__hlc__gen_fpm_surf_from_cube(dm, modelType):
    if modelType.lower() == 'compact':
        d = dm.compact
    elif modelType.lower() == 'full':
        d = dm
    else:
        raise ValueError('modelType')
    surf = np.zeros((d.NdmPad, d.NdmPad))
    for iact in range(dm.NactTotal):
        if np.sum(np.abs(d.inf_datacube[:, :, iact])) >= 1e-8 and np.sum(np.abs(dm.VtoH.flatten()[iact])) >= 1e-12:
            x = np.arange(d.xy_box_lowerLeft[0, iact], d.xy_box_lowerLeft[0, iact] + d.Nbox, dtype=int)
            y = np.arange(d.xy_box_lowerLeft[1, iact], d.xy_box_lowerLeft[1, iact] + d.Nbox, dtype=int)
            surf[np.ix_(y, x)] += dm.V.flatten()[iact] * dm.VtoH.flatten()[iact] * d.inf_datacube[:, :, iact]
    surf[surf < 0] = 0.
    return surf


# ---------------------------------------------------------------- Zernike sensitivities

def falco__zern__falco_get_single_sim_Efield_LamPol(ni, inds_list, mp):
    ilam, ipol = inds_list[ni][0], inds_list[ni][1]
    row = mp.full.indsLambdaUnique[ilam]
    modvar = _case(mp.full.indsLambdaMat[row, 0], mp.full.indsLambdaMat[row, 1], 0)
    modvar.zernIndex = 1
    return falco.model.full(_polarised(mp, mp.full.pol_conds[ipol]), modvar)


def falco__zern__falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
    ilam, ipol, izern = inds_list_zern[ni][0], inds_list_zern[ni][1], inds_list_zern[ni][2]
    noll = mp.eval.indsZnoll[izern]
    row = mp.full.indsLambdaUnique[ilam]
    si = mp.full.indsLambdaMat[row, 0]
    wi = mp.full.indsLambdaMat[row, 1]
    modvar = _case(si, wi, 0)
    mp = _polarised(mp, mp.full.pol_conds[ipol])
    mp.P1 = copy.copy(mp.P1)
    mp.P1.full = copy.copy(mp.P1.full)
    mp.P1.full.E = mp.P1.full.E.copy()
    if not hasattr(mp.full, 'zindex'):
        mp.full.zindex = np.array([])
        mp.full.zval_m = np.array([])
    index = copy.copy(mp.full.zindex)
    value = copy.copy(mp.full.zval_m)
    if mp.full.flagPROPER:
        if any(index == noll):
            mp.full.zval_m = value
            here = np.nonzero(index == noll)[0]
            mp.full.zval_m[here] = mp.full.zval_m[here] + mp.full.ZrmsVal
        else:
            mp.full.zindex = np.concatenate((index, np.array([noll]))).astype(int)
            mp.full.zval_m = np.concatenate((value, np.array([mp.full.ZrmsVal])))
        mp.full.zval = mp.full.zval_m
    else:
        Z = pad_crop(np.squeeze(falco.zern.gen_norm_zern_maps(mp.P1.full.Nbeam, mp.centering, np.array([noll]))), mp.P1.full.Narr)
        mp.P1.full.E[:, :, wi, si] = np.squeeze(mp.P1.full.E[:, :, wi, si]) * np.exp(
            1j * 2 * np.pi / mp.full.lambdasMat[si, wi] * mp.full.ZrmsVal * Z)
    return falco.model.full(mp, modvar)


def falco__zern__calc_zern_sens(mp):
    noll = mp.eval.indsZnoll
    Rsens = mp.eval.Rsens
    Nann = Rsens.shape[0]
    Nzern = noll.size
    masks = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, Nann))
    for k in range(Nann):
        spec = {'pixresFP': mp.Fend.res, 'rhoInner': Rsens[k, 0], 'rhoOuter': Rsens[k, 1], 'angDeg': mp.Fend.corr.ang,
                'centering': mp.centering, 'FOV': mp.Fend.FOV, 'whichSide': np.atleast_1d(mp.Fend.sides)[0]}
        if hasattr(mp.Fend, 'shape'):
            spec['shape'] = np.atleast_1d(mp.Fend.shape)[0]
        masks[:, :, k], _, _ = falco.mask.falco_gen_SW_mask(spec)
    if not hasattr(mp, 'full'):
        mp.full = falco.config.Object()
    Npol = len(mp.full.pol_conds) if hasattr(mp.full, 'pol_conds') else 1
    Nlam = mp.full.NlamUnique
    E0 = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, Nlam, Npol), dtype=complex)
    dE = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, Nlam, Npol, Nzern), dtype=complex)
    cases = [(ilam, ipol) for ilam in np.arange(Nlam) for ipol in np.arange(Npol)]
    N = Nlam * Npol
    stack = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, N), dtype=complex)
    for k in range(N):
        stack[:, :, k] = falco.zern.falco_get_single_sim_Efield_LamPol(k, cases, mp)
    for k in range(N):
        E0[:, :, cases[k][0], cases[k][1]] = stack[:, :, k]
    cases = [(ilam, ipol, izern) for ilam in np.arange(Nlam) for ipol in np.arange(Npol) for izern in np.arange(Nzern)]
    N = Nlam * Npol * Nzern
    stack = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, N), dtype=complex)
    for k in range(N):
        stack[:, :, k] = falco.zern.falco_get_single_sim_Efield_LamPolZern(k, cases, mp)
    for k in range(N):
        dE[:, :, cases[k][0], cases[k][1], cases[k][2]] = stack[:, :, k] - E0[:, :, cases[k][0], cases[k][1]]
    cube = np.mean(np.mean(np.abs(dE)**2, axis=3), axis=2)
    sens = np.zeros((Nzern, Nann))
    for z in range(Nzern):
        for a in range(Nann):
            sens[z, a] = np.mean(np.squeeze(cube[:, :, z])[np.squeeze(masks[:, :, a]) == 1])
    return sens

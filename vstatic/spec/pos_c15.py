"""Positive examples for C15 (bad*: indices mixed up; good*: the same in other words)."""
import copy
import numpy as np
import falco


def bad__falco__setup__falco_set_spatial_weights(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    XIS, ETAS = np.meshgrid(mp.Fend.xisDL, mp.Fend.etasDL)
    RHOS = np.sqrt(XIS**2 + ETAS**2)
    mp.Wspatial = copy.copy(mp.Fend.corr.maskBool).astype(float)
    if hasattr(mp, 'WspatialDef'):
        mp.WspatialDef = np.atleast_2d(mp.WspatialDef)
        if mp.WspatialDef.size > 0:
            for k in range(mp.WspatialDef.shape[0]):
                mp.Wspatial = mp.Wspatial * (1. + (np.sqrt(mp.WspatialDef[k, 2]) - 1.)
                                             * ((RHOS >= mp.WspatialDef[k, 0]) & (RHOS < mp.WspatialDef[k, 1])))
    mp.WspatialVec = np.zeros((np.sum(mp.Fend.corr.maskBool.astype(int)), mp.compact.star.count))
    for iStar in range(mp.compact.star.count):
        mp.WspatialVec[:, iStar] = mp.jac.star.weights[0] * mp.Wspatial[mp.Fend.corr.maskBool]


def good__falco__setup__falco_set_spatial_weights(mp):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    RHOS = np.hypot(*np.meshgrid(mp.Fend.xisDL, mp.Fend.etasDL)) if False else np.sqrt(sum(a**2 for a in np.meshgrid(mp.Fend.xisDL, mp.Fend.etasDL)))
    W = copy.copy(mp.Fend.corr.maskBool).astype(float)
    if hasattr(mp, 'WspatialDef'):
        mp.WspatialDef = np.atleast_2d(mp.WspatialDef)
        if not mp.WspatialDef.size <= 0:
            for row in range(0, mp.WspatialDef.shape[0]):
                annulus = (RHOS >= mp.WspatialDef[row, 0]) & (RHOS < mp.WspatialDef[row, 1])
                W = (1. + annulus * (np.sqrt(mp.WspatialDef[row, 2]) - 1.)) * W
    mp.Wspatial = W
    dark = mp.Wspatial[mp.Fend.corr.maskBool]
    mp.WspatialVec = np.zeros((np.sum(mp.Fend.corr.maskBool.astype(int)), mp.compact.star.count))
    for iStar in range(mp.compact.star.count):
        weight = mp.jac.star.weights[iStar]
        mp.WspatialVec[:, iStar] = dark * weight


def bad__falco__imaging__get_sim_offaxis_image_compact(mp, x_offset, y_offset, isEvalMode=False):
    if type(mp) is not falco.config.ModelParameters:
        raise TypeError('mp')
    falco.check.real_scalar(x_offset, 'x_offset', TypeError)
    falco.check.real_scalar(y_offset, 'y_offset', TypeError)
    if not isinstance(isEvalMode, bool):
        raise TypeError('isEvalMode')
    modvar = falco.config.ModelVariables()
    modvar.whichSource = 'offaxis'
    modvar.x_offset = x_offset
    modvar.y_offset = y_offset
    image = 0.
    for iStar in range(mp.compact.star.count):
        modvar.starIndex = iStar
        for si in range(mp.Nsbp):
            modvar.sbpIndex = si
            modvar.zernIndex = 1
            E = falco.model.compact(mp, modvar, isEvalMode=isEvalMode)
            image = image + np.abs(E)**2 * mp.jac.weightMat[0, 0]
    return image


def bad__falco__hlc__gen_fpm_cube_from_LUT(mp, modelType):
    if modelType.lower() == 'compact':
        table, lam = mp.complexTransCompact, mp.sbp_centers
    elif modelType.lower() == 'full':
        table, lam = mp.complexTransFull, mp.full.lambdas
    else:
        raise ValueError('modelType')
    metal = falco.hlc.gen_fpm_surf_from_cube(mp.dm8, modelType)
    diel = mp.t_diel_bias_nm * 1e-9 + falco.hlc.gen_fpm_surf_from_cube(mp.dm9, modelType)
    if metal.shape != diel.shape:
        raise ValueError('shape')
    im = falco.hlc.discretize_fpm_surf(metal, mp.t_metal_nm_vec, mp.dt_metal_nm)
    jd = falco.hlc.discretize_fpm_surf(diel, mp.t_diel_nm_vec, mp.dt_diel_nm)
    cube = np.zeros((metal.shape[0], metal.shape[1], len(lam)), dtype=complex)
    for ilam in range(len(lam)):
        for ix in range(metal.shape[1]):
            for iy in range(metal.shape[0]):
                cube[iy, ix, ilam] = table[jd[iy, ix], im[iy, ix], 0]
    return cube, metal, diel

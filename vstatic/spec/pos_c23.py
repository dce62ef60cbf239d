"""Positive examples of C23: wrong (bad*) and merely rewritten (good*) variants of compared functions."""
import numpy as np

import falco


def bad__falco__ctrl__wrapup(mp, cvar, duVec):
    """The second mirror receives the first mirror's weight."""
    d = falco.config.Object()
    if any(mp.dm_ind == 1):
        v = np.zeros(mp.dm1.NactTotal)
        v[mp.dm1.act_ele] = mp.dm1.weight * duVec[cvar.uLegend == 1]
        d.dDM1V = v.reshape((mp.dm1.Nact, mp.dm1.Nact))
        mp.dm1.V = cvar.DM1Vnom + d.dDM1V
    if any(mp.dm_ind == 2):
        v = np.zeros(mp.dm2.NactTotal)
        v[mp.dm2.act_ele] = mp.dm1.weight * duVec[cvar.uLegend == 2]
        d.dDM2V = v.reshape((mp.dm2.Nact, mp.dm2.Nact))
        mp.dm2.V = cvar.DM2Vnom + d.dDM2V
    if any(mp.dm_ind == 8):
        d.dDM8V = np.zeros(mp.dm8.NactTotal)
        d.dDM8V[mp.dm8.act_ele] = mp.dm8.weight * duVec[cvar.uLegend == 8]
        mp.dm8.V = cvar.DM8Vnom + d.dDM8V
    if any(mp.dm_ind == 9):
        d.dDM9V = np.zeros(mp.dm9.NactTotal)
        d.dDM9V[mp.dm9.act_ele] = mp.dm9.weight * duVec[cvar.uLegend == 9]
        mp.dm9.V = cvar.DM9Vnom + d.dDM9V
    return mp, d


def _trial(ni, vals_list, mp, cvar, reg):
    keep = []
    if any(mp.dm_ind == 1):
        V1 = mp.dm1.V.copy()
    if any(mp.dm_ind == 2):
        V2 = mp.dm2.V.copy()
    if any(mp.dm_ind == 8):
        V8 = mp.dm8.V.copy()
    if any(mp.dm_ind == 9):
        V9 = mp.dm9.V.copy()
    falco.ctrl.init(mp, cvar)
    sol = np.linalg.solve(reg + cvar.GstarG_wsum, cvar.RealGstarEab_wsum)
    mp, d = falco.ctrl.wrapup(mp, cvar, (-vals_list[ni][1] * sol).reshape((-1,)))
    if not mp.ctrl.flagUseModel:
        image = falco.imaging.get_summed_image(mp)
    else:
        image = falco.imaging.get_expected_summed_image(mp, cvar, d)
    d.Itotal = image
    if any(mp.dm_ind == 9):
        mp.dm9.V = V9
    if any(mp.dm_ind == 8):
        mp.dm8.V = V8
    if any(mp.dm_ind == 2):
        mp.dm2.V = V2
    if any(mp.dm_ind == 1):
        mp.dm1.V = V1
    return np.mean(image[mp.Fend.corr.maskBool]), d


def good__falco__ctrl___efc(ni, vals_list, mp, cvar):
    return _trial(ni, vals_list, mp, cvar, np.diag(cvar.EyeGstarGdiag) * 10.0**vals_list[ni][0])


def bad__falco__ctrl___efc(ni, vals_list, mp, cvar):
    """Natural instead of decimal logarithm."""
    return _trial(ni, vals_list, mp, cvar, np.diag(cvar.EyeGstarGdiag) * np.exp(vals_list[ni][0]))


def _weighted(mp, jacStruct, star):
    if np.any(mp.dm_ind == 1):
        jacStruct.G1 = jacStruct.G1.copy()
    if np.any(mp.dm_ind == 2):
        jacStruct.G2 = jacStruct.G2.copy()
    for k in range(mp.compact.star.count):
        col = mp.WspatialVec[:, k if star else 0]
        if np.any(mp.dm_ind == 1):
            g = np.moveaxis(np.tile(col.reshape([-1]), [mp.dm1.Nele, mp.jac.NmodePerStar, 1]), 2, 0)
            jacStruct.G1[:, :, mp.jac.star_inds == k] = g * jacStruct.G1[:, :, mp.jac.star_inds == k]
        if np.any(mp.dm_ind == 2):
            g = np.moveaxis(np.tile(col.reshape([-1]), [mp.dm2.Nele, mp.jac.NmodePerStar, 1]), 2, 0)
            jacStruct.G2[:, :, mp.jac.star_inds == k] = g * jacStruct.G2[:, :, mp.jac.star_inds == k]


def good__falco__ctrl__apply_spatial_weighting_to_Jacobian(mp, jacStruct):
    _weighted(mp, jacStruct, True)


def bad__falco__ctrl__apply_spatial_weighting_to_Jacobian(mp, jacStruct):
    """Weights of the first star for every star."""
    _weighted(mp, jacStruct, False)
